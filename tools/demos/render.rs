// Processes the raw image beside it and compares with the right result (to rounding).
use rawloader::{RawImage, CFA};
use rawloader::decoders::Orientation::*;
fn main() {
  let here = std::env::args().nth(1).unwrap();
  let t = std::fs::read_to_string(format!("{}/input.img", here)).unwrap();
  let l: Vec<Vec<&str>> = t.lines().map(|x| x.split_whitespace().collect()).collect();
  let n = |r: usize, c: usize| l[r][c].parse::<usize>().unwrap();
  let f = |r: usize, c: usize| f32::from_bits(l[r][c].parse::<u32>().unwrap());
  let mut m = [[0f32; 3]; 4];
  for i in 0..12 { m[i / 3][i % 3] = f(5, i) }
  let img = RawImage {
    make: "".into(), model: "".into(), clean_make: "".into(), clean_model: "".into(),
    width: n(0, 0), height: n(0, 1), cpp: n(0, 2),
    crops: [n(1, 0), n(1, 1), n(1, 2), n(1, 3)],
    wb_coeffs: [f(2, 0), f(2, 1), f(2, 2), f(2, 3)],
    blacklevels: [n(3, 0) as u16, n(3, 1) as u16, n(3, 2) as u16, n(3, 3) as u16],
    whitelevels: [n(4, 0) as u16, n(4, 1) as u16, n(4, 2) as u16, n(4, 3) as u16],
    xyz_to_cam: m,
    cfa: CFA::new(if l[6][0] == "-" { "" } else { l[6][0] }),
    orientation: [Unknown, Normal, HorizontalFlip, Rotate180, VerticalFlip, Transpose, Rotate90, Transverse, Rotate270][n(7, 0)],
    data: l[8].iter().map(|x| x.parse().unwrap()).collect(),
  };
  let (mw, mh) = (n(7, 1), n(7, 2));
  // an image of the same camera with another matrix before it makes no difference
  let mut other = img.clone();
  other.xyz_to_cam = [[0.9, 0.1, 0.0], [0.1, 0.8, 0.1], [0.0, 0.2, 0.7], [0.0; 3]];
  let _ = other.to_rgb(0, 0);
  let a = img.to_linear_rgb(mw, mh).unwrap();
  let b = img.to_rgb(mw, mh).unwrap();
  let c = img.to_srgb(mw, mh).unwrap();
  let mut v: Vec<f32> = vec![a.width as f32, a.height as f32, b.width as f32, b.height as f32, c.width as f32, c.height as f32];
  v.extend(a.data.iter());
  v.extend(b.data.iter());
  v.extend(c.data.iter().map(|x| *x as f32));
  let p = format!("{}/expect.txt", here);
  if std::env::var("DEMO_WRITE").is_ok() { std::fs::write(&p, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")).unwrap(); return }
  let e: Vec<f32> = std::fs::read_to_string(&p).unwrap().lines().map(|x| x.parse().unwrap()).collect();
  if v.len() != e.len() { println!("sizes {:?} instead of {:?}", &v[..6], &e[..6]); std::process::exit(1) }
  let eight = 6 + a.data.len() * 2;
  for i in 0..v.len() {
    let tol = if i < 6 { 0.0 } else if i < eight { 1e-4 + 1e-4 * e[i].abs() } else { 1.0 };
    if !((v[i] - e[i]).abs() <= tol || v[i].is_nan() && e[i].is_nan()) { println!("value {}: {} instead of {}", i, v[i], e[i]); std::process::exit(1) }
  }
}
