// Data of a size that is one byte off that of a known headerless format must be refused.
fn main() {
  let dir = std::env::args().nth(2).unwrap();
  let f = format!("{}/input.raw", dir);
  let mut x = 12345u32;
  let data: Vec<u8> = (0..6573120usize + 1).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); 100 + (x >> 28) as u8 }).collect();
  std::fs::write(&f, &data[..6573120]).unwrap();
  if rawloader::decode(&f).is_err() { println!("the right size is not recognised"); std::process::exit(3) }
  std::fs::write(&f, &data).unwrap();
  match rawloader::decode(&f) {
    Ok(i) => { println!("decoded as {} {}", i.make, i.model); std::process::exit(1) }
    Err(e) => if e.trim().is_empty() { println!("no message"); std::process::exit(1) },
  }
}
