// Decodes the file beside it and compares everything reported with what was stored in it.
fn main() {
  let here = std::env::args().nth(1).unwrap();
  let i = match rawloader::decode(&format!("{}/input.raw", here)) { Ok(i) => i, Err(e) => { println!("refused: {}", e); std::process::exit(1) } };
  let mut cfa = String::new();
  if i.cfa.is_valid() { for r in 0..12 { for c in 0..12 { cfa.push_str(&i.cfa.color_at(r, c).to_string()) } } }
  let mut h: u64 = 0xcbf29ce484222325;
  for v in &i.data { for b in v.to_le_bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } }
  let head: Vec<String> = i.data.iter().take(64).map(|x| x.to_string()).collect();
  let s = format!("{} | {} | {} | {}\n{}x{}x{} {}\nwb {:?}\nblack {:?} white {:?} crops {:?} {:?}\nmatrix {:?}\ncfa {}\ndata {:016x} {}\n",
    i.make, i.model, i.clean_make, i.clean_model, i.width, i.height, i.cpp, i.data.len(), i.wb_coeffs, i.blacklevels, i.whitelevels, i.crops, i.orientation, i.xyz_to_cam, cfa, h, head.join(" "));
  let f = format!("{}/expect.txt", here);
  if std::env::var("DEMO_WRITE").is_ok() { std::fs::write(&f, &s).unwrap(); return }
  let e = std::fs::read_to_string(&f).unwrap();
  if s != e { println!("expected\n{}got\n{}", e, s); std::process::exit(1) }
}
