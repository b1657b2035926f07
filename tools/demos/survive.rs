// Decodes the damaged file beside it in a process of its own: it has to come back, with an
// error or a consistent image, in reasonable time.
use std::process::Command;
fn main() {
  let a: Vec<String> = std::env::args().collect();
  if a.len() > 3 {
    match rawloader::decode(&format!("{}/input.raw", a[1])) {
      Ok(i) => if i.data.len() != i.width * i.height * i.cpp { std::process::exit(7) },
      Err(e) => if e.is_empty() { std::process::exit(7) },
    }
    return;
  }
  let mut c = Command::new(&a[0]).args(&a[1..]).arg("child").spawn().unwrap();
  for _ in 0..600 {
    std::thread::sleep(std::time::Duration::from_millis(100));
    if let Some(s) = c.try_wait().unwrap() {
      println!("{:?}", s);
      std::process::exit(if s.success() { 0 } else { 1 });
    }
  }
  let _ = c.kill();
  println!("still running after 60 s");
  std::process::exit(1);
}
