// The file beside it is not supported and must be refused.
fn main() {
  let here = std::env::args().nth(1).unwrap();
  match rawloader::decode(&format!("{}/input.raw", here)) {
    Ok(i) => { println!("decoded as {} {}", i.make, i.model); std::process::exit(1) }
    Err(e) => if e.trim().is_empty() { println!("no message"); std::process::exit(1) },
  }
}
