// A pattern shifted in steps shows the colour of the original pattern at the shifted place.
use rawloader::CFA;
fn main() {
  let mut pats: Vec<String> = vec!["RGGB".into(), "ERBGGBREBGERGERB".into(), "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG".into()];
  let mut big = String::new();
  for i in 0..144usize { big.push(['R', 'G', 'B', 'E'][(i * i / 7 + i) % 4]) }
  pats.push(big);
  for p in &pats {
    let (w, h) = match p.len() { 4 => (2, 2), 16 => (2, 8), 36 => (6, 6), _ => (12, 12) };
    let b = p.as_bytes();
    let want = |r: usize, c: usize| match b[(r % h) * w + c % w] { b'R' => 0, b'G' => 1, b'B' => 2, _ => 3 };
    let base = CFA::new(p);
    for x in (0..140).step_by(3) { for y in (0..140).step_by(2) {
      let s = base.shift(x, y).shift(y, x + 1);
      for r in 0..50 { for c in 0..50 {
        if s.color_at(r, c) != want(r + y + x + 1, c + x + y) { println!("{} shifted by {},{} differs at {},{}", p, x, y, r, c); std::process::exit(1) }
      } }
      if base.color_at(x * 7, y * 5) != want(x * 7, y * 5) { println!("{} differs at {},{}", p, x * 7, y * 5); std::process::exit(1) }
    } }
  }
}
