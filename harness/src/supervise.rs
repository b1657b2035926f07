//! Runs a property's search in a child process, so that an abort, a stack overflow, running
//! out of memory or an endless loop of the code under test is seen and attributed to the
//! case that causes it; writes evidence, replay files and the verdict.
use crate::engine::*;
use crate::props;
use crate::util::*;
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// address space a search or a single case may use
const MEM: u64 = 24 << 30;
/// CPU seconds a single case may use when run alone; cases take well under a second
const CASE_CPU: u64 = 100;
/// a case running this long (wall clock) makes the search stop and re-run it alone
const SUSPECT: u64 = 90;

pub fn verif() -> PathBuf {
  if let Ok(v) = std::env::var("VERIF_DIR") { return PathBuf::from(v) }
  PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn make_scratch() -> PathBuf {
  let base = if std::fs::write("/dev/shm/.rlcheck-probe", b"x").is_ok() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().to_string() };
  let _ = std::fs::remove_file("/dev/shm/.rlcheck-probe");
  let d = PathBuf::from(base).join(format!("rlcheck-{}", std::process::id()));
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir_all(&d).expect("scratch directory");
  d
}

pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64 }

fn limits(cmd: &mut Command, cpu: Option<u64>) {
  unsafe {
    cmd.pre_exec(move || {
      let l = libc::rlimit { rlim_cur: MEM, rlim_max: MEM };
      libc::setrlimit(libc::RLIMIT_AS, &l);
      let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &c);
      if let Some(s) = cpu {
        let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
      }
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
}

enum End { Exit(i32), Signal(i32), Timeout }
fn wait(mut ch: std::process::Child, limit: Duration) -> End {
  let t0 = Instant::now();
  loop {
    match ch.try_wait().expect("wait") {
      Some(st) => return match st.signal() { Some(s) => End::Signal(s), None => End::Exit(st.code().unwrap_or(99)) },
      None => {}
    }
    if t0.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); return End::Timeout }
    std::thread::sleep(Duration::from_millis(20));
  }
}

/// The harness built with or without overflow checks: arithmetic that overflows panics in one
/// and wraps in the other, as it does for users of either kind of build.
fn exe(release: bool) -> PathBuf {
  let me = std::env::current_exe().unwrap();
  let name = me.file_name().unwrap().to_owned();
  me.parent().unwrap().parent().unwrap().join(if release { "release" } else { "debug" }).join(name)
}

fn self_cmd(release: bool, scratch: &Path, args: &[&str], log: &str) -> Command {
  let mut c = Command::new(exe(release));
  c.args(args).env("RLCHECK_SCRATCH", scratch).stdin(Stdio::null()).stdout(Stdio::null())
    .stderr(std::fs::File::create(scratch.join(log)).map(Stdio::from).unwrap_or(Stdio::null()));
  c
}

/// Runs one recorded case alone. Ok(None): held; Ok(Some(msg)): violated; Err: no answer.
fn run_case(prop: &str, case: &Value, scratch: &Path) -> Result<Option<String>, String> {
  let f = scratch.join("alone.case");
  let o = scratch.join("alone.out");
  std::fs::write(&f, case.to_string()).map_err(|e| e.to_string())?;
  let _ = std::fs::remove_file(&o);
  let sub = scratch.join("alone");
  let _ = std::fs::create_dir_all(&sub);
  let mut c = self_cmd(case["build"] == "release", &sub, &["case", prop, f.to_str().unwrap(), o.to_str().unwrap()], "log");
  limits(&mut c, Some(CASE_CPU));
  let r = match wait(c.spawn().map_err(|e| e.to_string())?, Duration::from_secs(420)) {
    End::Exit(0) => Ok(None),
    End::Exit(1) => Ok(Some(std::fs::read_to_string(&o).unwrap_or_default())),
    End::Exit(k) => Err(format!("case runner exited with {}", k)),
    End::Signal(s) if s == libc::SIGXCPU || s == libc::SIGKILL && cpu_used() >= CASE_CPU => Ok(Some(format!("the call had not returned after {} s of CPU time", CASE_CPU))),
    End::Signal(s) => Ok(Some(format!("the process was ended by signal {} (an abort or crash instead of an error result)", s))),
    End::Timeout => Err("wall clock limit without using up the CPU limit".into()),
  };
  let _ = std::fs::remove_dir_all(&sub);
  r
}
fn cpu_used() -> u64 {
  unsafe { let mut u: libc::rusage = std::mem::zeroed(); libc::getrusage(libc::RUSAGE_CHILDREN, &mut u); u.ru_utime.tv_sec as u64 + u.ru_stime.tv_sec as u64 }
}

struct Known { property: String, group: String, contains: String, text: String }
fn known() -> Vec<Known> {
  let p = verif().join("known-findings.json");
  let v: Value = match std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(v) => v, None => return vec![] };
  v["known"].as_array().map(|a| a.iter().map(|k| Known {
    property: k["property"].as_str().unwrap_or("").into(), group: k["group"].as_str().unwrap_or("").into(),
    contains: k["message_contains"].as_str().unwrap_or("\u{0}").into(), text: k["what"].as_str().unwrap_or("").into(),
  }).collect()).unwrap_or_default()
}

fn search(release: bool, id: &str, thorough: bool, scratch: &Path) -> (Value, Vec<(Value, String)>, Option<String>) {
  let rep = scratch.join("report.json");
  let _ = std::fs::remove_file(&rep);
  let _ = std::fs::remove_file(scratch.join("slow"));
  let mut c = self_cmd(release, scratch, &["child", id, if thorough { "thorough" } else { "quick" }, rep.to_str().unwrap()], "log");
  limits(&mut c, None);
  let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 560 });
  let end = wait(c.spawn().expect("spawn"), limit);
  let mut fails: Vec<(Value, String)> = vec![];
  let mut trouble: Option<String> = None;
  let r: Value = std::fs::read_to_string(&rep).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
  let mark = |mut v: Value| { if release { v["build"] = json!("release") } v };
  match end {
    End::Exit(0) if !r.is_null() => {
      for f in r["fails"].as_array().unwrap() { fails.push((mark(f["replay"].clone()), f["message"].as_str().unwrap().to_string())) }
    }
    other => {
      let why = match other { End::Exit(k) => format!("exit {}", k), End::Signal(s) => format!("signal {}", s), End::Timeout => "time limit".into() };
      let mut seen = 0;
      let mut names: Vec<_> = std::fs::read_dir(scratch).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "case")).collect();
      names.sort();
      let cases: Vec<Value> = names.iter().filter_map(|f| std::fs::read_to_string(f).ok()).filter_map(|s| serde_json::from_str(&s).ok()).collect();
      let slow: Option<Value> = std::fs::read_to_string(scratch.join("slow")).ok().and_then(|s| serde_json::from_str(&s).ok());
      let cases = match slow { Some(s) => vec![s], None => cases };
      for v in cases {
        seen += 1;
        let v = mark(v);
        match run_case(id, &v, scratch) {
          Ok(Some(m)) => { fails.push((v, m)); break }
          Ok(None) => {}
          Err(e) => { trouble = Some(e) }
        }
      }
      if fails.is_empty() {
        let log = std::fs::read_to_string(scratch.join("log")).unwrap_or_default();
        trouble = Some(format!("the search ended early ({}), {} running cases re-run alone did not fail: {:?}; {}", why, seen, trouble, log.lines().take(5).collect::<Vec<_>>().join(" / ")));
      }
    }
  }
  (r, fails, trouble)
}

pub fn run(id: &str, thorough: bool) -> i32 {
  let p = match props::find(id) { Some(p) => p, None => { eprintln!("no property {}", id); return 2 } };
  let t0 = Instant::now();
  let scratch = make_scratch();
  let (mut r, mut fails, mut trouble) = search(false, id, thorough, &scratch);
  if p.both_builds && fails.is_empty() && trouble.is_none() {
    let (r2, f2, t2) = search(true, id, thorough, &scratch);
    if !r2.is_null() {
      // the same inputs again, in the other build: counted as evaluations, not as new inputs
      r["evals"] = json!(r["evals"].as_u64().unwrap_or(0) + r2["evals"].as_u64().unwrap_or(0));
    }
    fails = f2;
    trouble = t2;
  }
  // evidence
  let ev = json!({
    "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed(), "level": "exploration",
    "coverage": {
      "evaluations": r["evals"].as_u64().unwrap_or(0),
      "distinct_nontrivial": r["distinct"].as_u64().unwrap_or(0),
      "rule": p.rule,
      "samples": if r.is_null() { json!([]) } else { r["samples"].clone() },
      "classes": if r.is_null() { json!({}) } else { r["labels"].clone() },
    },
    "assumptions": p.assumptions,
    "wall_s": t0.elapsed().as_secs_f64(),
    "violations": fails.len(),
  });
  let _ = std::fs::create_dir_all(verif().join("evidence"));
  std::fs::write(verif().join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
  let _ = std::fs::remove_dir_all(&scratch);
  // verdict
  let kn = known();
  let mut bad = 0;
  for (v, m) in &fails {
    if let Some(k) = kn.iter().find(|k| k.property == id && v["group"] == k.group.as_str() && m.contains(&k.contains)) {
      println!("KNOWN-FINDING: property={} {}", id, k.text);
      continue;
    }
    bad += 1;
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{:016x}.json", id, hash_bytes(v.to_string().as_bytes())));
    let body = json!({"property": id, "replay": v, "message": m});
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&body).unwrap());
    let short: String = m.chars().take(600).collect();
    println!("{}: {}", id, short);
    println!("VIOLATION property={} replay={}", id, f.display());
  }
  if bad > 0 { return 1 }
  if let Some(t) = trouble { eprintln!("{}: no answer: {}", id, t); return 2 }
  println!("{} held: {} cases, {} distinct non-trivial, {:.1} s", id, r["evals"], r["distinct"], t0.elapsed().as_secs_f64());
  0
}

/// The search itself.
pub fn child(id: &str, thorough: bool, out: &str) {
  let p = props::find(id).unwrap();
  let groups = (p.groups)();
  let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(2).min(16);
  let threads = if p.threads > 0 { threads.min(p.threads) } else { threads };
  // watchdog over the case files: one that has not changed for very long is re-run alone
  let scratch = scratch_dir();
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_secs(3));
    if let Ok(rd) = std::fs::read_dir(&scratch) {
      for e in rd.filter_map(|e| e.ok()) {
        if e.path().extension().map_or(false, |x| x == "case") {
          let age = e.metadata().ok().and_then(|m| m.modified().ok()).and_then(|t| t.elapsed().ok()).unwrap_or_default();
          if age > Duration::from_secs(SUSPECT) && !crate::engine::shrinking() {
            if let Ok(s) = std::fs::read_to_string(e.path()) { let _ = std::fs::write(scratch.join("slow"), s); }
            std::process::exit(3);
          }
        }
      }
    }
  });
  let r = run_groups(&groups, thorough, seed(), threads);
  let v = json!({
    "evals": r.evals, "distinct": r.distinct, "labels": r.labels, "samples": r.samples,
    "fails": r.fails.iter().map(|(v, m)| json!({"replay": v, "message": m})).collect::<Vec<_>>(),
  });
  std::fs::write(out, v.to_string()).expect("report");
  // worker threads of the code under test are not waited for
  std::process::exit(0);
}

pub fn case_child(id: &str, file: &str, out: &str) {
  let p = props::find(id).unwrap();
  let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
  match replay(&(p.groups)(), &v) {
    Ok(()) => std::process::exit(0),
    Err(m) => { let _ = std::fs::write(out, m); std::process::exit(1) }
  }
}

pub fn replay_file(file: &str) -> i32 {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
  let id = v["property"].as_str().unwrap();
  let scratch = make_scratch();
  let r = run_case(id, &v["replay"], &scratch);
  let _ = std::fs::remove_dir_all(&scratch);
  match r {
    Ok(None) => { println!("{} holds on this case", id); 0 }
    Ok(Some(m)) => { println!("{}: {}", id, m); println!("VIOLATION property={} replay={}", id, file); 1 }
    Err(e) => { eprintln!("no answer: {}", e); 2 }
  }
}
