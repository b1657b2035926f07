mod bits;
mod db;
mod dump;
mod engine;
mod fmt;
mod ljpegw;
mod pipe;
mod props;
mod supervise;
mod tiffw;
mod util;

use engine::*;
use fmt::*;

fn usage() -> ! {
  eprintln!("rlcheck run <property> quick|thorough | replay <file> | try <kinds> [n] [seed] | list");
  std::process::exit(2)
}

fn main() {
  let verbose = std::env::var("RLCHECK_VERBOSE").is_ok();
  std::panic::set_hook(Box::new(move |i| if verbose { eprintln!("panic: {}", i) }));
  let a: Vec<String> = std::env::args().collect();
  if a.len() < 2 { usage() }
  match a[1].as_str() {
    // supervisor: runs the search in a child process and judges how it ended
    "run" if a.len() == 4 => std::process::exit(supervise::run(&a[2], a[3] == "thorough")),
    "replay" if a.len() == 3 => std::process::exit(supervise::replay_file(&a[2])),
    // children
    "child" => supervise::child(&a[2], a[3] == "thorough", &a[4]),
    "case" => supervise::case_child(&a[2], &a[3], &a[4]),
    "hashes" => props::determinism::hashes_child(&a[2..]),
    "list" => for p in props::all() { println!("{} {}", p.id, p.rule) },
    "dump" if a.len() == 4 => dump::dump(&a[2], &a[3]),
    "corpus" if a.len() == 4 => dump::corpus(&a[2], a[3].parse().unwrap()),
    "cover" => props::decode::print_cover(),
    "try" => {
      let d = supervise::make_scratch();
      std::env::set_var("RLCHECK_SCRATCH", &d);
      let n: u32 = a.get(3).map_or(200, |x| x.parse().unwrap());
      let seed: u64 = a.get(4).map_or(1, |x| x.parse().unwrap());
      for k in kinds() {
        if !(a[2] == "all" || a[2].split(',').any(|x| k.name.starts_with(x))) { continue }
        let nc = cams_of(k).len();
        let name: &'static str = k.name;
        let n = if k.heavy { n.min(16) } else { n };
        let g = [engine::group_dyn(name, n, n, std::sync::Arc::new(move || spec_strat(vec![name])), |s: &Spec| props::decode::check_decode(s, ALL))];
        let t = std::time::Instant::now();
        let r = run_groups(&g, false, seed, 8);
        println!("{:20} cams={} evals={} distinct={} {:.2}s {:?}", k.name, nc, r.evals, r.distinct, t.elapsed().as_secs_f64(), if r.labels.len() > 12 { Default::default() } else { r.labels });
        for (v, m) in r.fails.iter().take(1) { println!("   FAIL {}\n   {}", m, v); }
      }
      let _ = std::fs::remove_dir_all(&d);
    }
    _ => usage(),
  }
}
