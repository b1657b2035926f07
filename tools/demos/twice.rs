// Decodes the file beside it several times, alone and in several threads: always the same.
fn main() {
  let here = std::env::args().nth(1).unwrap();
  let f = format!("{}/input.raw", here);
  let first = rawloader::decode(&f).unwrap();
  for _ in 0..20 { if rawloader::decode(&f).unwrap().data != first.data { println!("a second decode differs"); std::process::exit(1) } }
  let hs: Vec<_> = (0..8).map(|_| { let f = f.clone(); std::thread::spawn(move || (0..20).map(|_| rawloader::decode(&f).unwrap().data).collect::<Vec<_>>()) }).collect();
  for h in hs { for d in h.join().unwrap() { if d != first.data { println!("a decode in another thread differs"); std::process::exit(1) } } }
}
