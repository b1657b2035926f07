//! Runs generated-input groups (proptest), counts what was generated, shrinks and records
//! failures, replays them.
use crate::util::*;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

/// What one evaluated case was.
pub struct Out {
  /// class, for the distribution in the evidence
  pub label: String,
  /// non-trivial by the property's rule
  pub nontrivial: bool,
  /// identity for distinct counting
  pub key: u64,
}
pub fn out(label: impl Into<String>, nontrivial: bool, key: u64) -> Result<Out, String> {
  Ok(Out { label: label.into(), nontrivial, key })
}

#[derive(Default)]
pub struct Shard {
  pub evals: u64,
  pub keys: HashSet<u64>,
  pub labels: BTreeMap<String, u64>,
  pub samples: Vec<Value>,
  pub fail: Option<(Value, String)>,
}

type RunFn = dyn Fn(u32, u64, u32, u32, &AtomicBool) -> Shard + Send + Sync;
type ReplayFn = dyn Fn(Value) -> Result<(), String> + Send + Sync;
pub struct Group {
  pub name: String,
  pub quick: u32,
  pub thorough: u32,
  /// how many shards the group may be split into (1 = keep whole)
  pub shards: u32,
  run: Box<RunFn>,
  replay: Box<ReplayFn>,
}

fn guarded<C, F: Fn(&C) -> Result<Out, String>>(f: &F, c: &C) -> Result<Out, String> {
  match catch_unwind(AssertUnwindSafe(|| f(c))) {
    Ok(r) => r,
    Err(e) => {
      let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else { "non-string panic".into() };
      Err(format!("panic escaped to the caller: {}", m))
    }
  }
}

pub fn group<C, F>(name: &str, quick: u32, thorough: u32, strat: fn() -> BoxedStrategy<C>, check: F) -> Group
where C: Debug + Clone + Serialize + DeserializeOwned + 'static,
      F: Fn(&C) -> Result<Out, String> + Send + Sync + Clone + 'static {
  group_dyn(name, quick, thorough, std::sync::Arc::new(strat), check)
}

pub fn group_dyn<C, F>(name: &str, quick: u32, thorough: u32, strat: std::sync::Arc<dyn Fn() -> BoxedStrategy<C> + Send + Sync>, check: F) -> Group
where C: Debug + Clone + Serialize + DeserializeOwned + 'static,
      F: Fn(&C) -> Result<Out, String> + Send + Sync + Clone + 'static {
  let gname = name.to_string();
  let check2 = check.clone();
  Group {
    name: name.to_string(), quick, thorough, shards: 8,
    run: Box::new(move |cases, seed, _, _, stop| {
      let mut cfg = Config::default();
      cfg.cases = cases;
      cfg.failure_persistence = None;
      cfg.rng_seed = RngSeed::Fixed(seed);
      cfg.rng_algorithm = RngAlgorithm::ChaCha;
      cfg.max_shrink_iters = if std::env::var("RLCHECK_NOSHRINK").is_ok() { 0 } else { 1500 };
      cfg.max_shrink_time = 15_000;
      cfg.max_global_rejects = 100_000;
      cfg.verbose = 0;
      let mut runner = TestRunner::new(cfg);
      let sh = RefCell::new(Shard::default());
      let failed = Cell::new(false);
      let first: RefCell<Option<(Value, String)>> = RefCell::new(None);
      let casefile = slot().1;
      let res = runner.run(&strat(), |c| {
        if !failed.get() {
          if stop.load(Ordering::Relaxed) { return Ok(()); }
          let v = json!({"group": gname, "case": c});
          let _ = std::fs::write(&casefile, v.to_string());
        }
        match guarded(&check, &c) {
          Ok(o) => {
            if !failed.get() {
              let mut s = sh.borrow_mut();
              s.evals += 1;
              *s.labels.entry(o.label).or_insert(0) += 1;
              if o.nontrivial && s.keys.insert(o.key) && s.samples.len() < 1 {
                s.samples.push(json!({"group": gname, "case": c}));
              }
            }
            Ok(())
          }
          Err(e) => { if !failed.get() { failed.set(true); SHRINKING.fetch_add(1, Ordering::SeqCst); *first.borrow_mut() = Some((serde_json::to_value(&c).unwrap(), e.clone())); } Err(TestCaseError::fail(e)) }
        }
      });
      let mut s = sh.into_inner();
      match res {
        Ok(()) => {}
        Err(TestError::Fail(_, c)) => {
          // re-run the minimal case so that message and case belong together
          let again = (0..5).filter_map(|_| guarded(&check, &c).err()).next();
          s.fail = Some(match again {
            Some(e) => (json!({"group": gname, "case": c}), e),
            // does not fail every time: report the case as first found
            None => { let (v, m) = first.borrow().clone().unwrap(); (json!({"group": gname, "case": v}), format!("{} (does not fail on every run)", m)) }
          });
          SHRINKING.fetch_sub(1, Ordering::SeqCst);
          stop.store(true, Ordering::Relaxed);
        }
        Err(TestError::Abort(r)) => panic!("generator aborted in {}: {}", gname, r),
      }
      let _ = std::fs::remove_file(&casefile);
      s
    }),
    replay: Box::new(move |v| {
      let c: C = serde_json::from_value(v).map_err(|e| format!("bad replay: {}", e))?;
      guarded(&check2, &c).map(|_| ())
    }),
  }
}

static SHRINKING: AtomicUsize = AtomicUsize::new(0);
pub fn shrinking() -> bool { SHRINKING.load(Ordering::SeqCst) > 0 }

/// A group that goes through a fixed list completely (every case is evaluated on every run;
/// the seed only varies the content derived from it through `make`).
pub fn group_enum<C, M, F>(name: &str, n: u32, make: M, check: F) -> Group
where C: Debug + Clone + Serialize + DeserializeOwned + 'static,
      M: Fn(u32, u64) -> C + Send + Sync + 'static,
      F: Fn(&C) -> Result<Out, String> + Send + Sync + Clone + 'static {
  let gname = name.to_string();
  let check2 = check.clone();
  Group {
    name: name.to_string(), quick: n, thorough: n, shards: 16.min(n.max(1)),
    run: Box::new(move |_, seed, si, sn, stop| {
      let mut s = Shard::default();
      let casefile = slot().1;
      let mut k = si;
      while k < n && !stop.load(Ordering::Relaxed) {
        let c = make(k, seed);
        let v = json!({"group": gname, "case": c});
        let _ = std::fs::write(&casefile, v.to_string());
        match guarded(&check, &c) {
          Ok(o) => {
            s.evals += 1;
            *s.labels.entry(o.label).or_insert(0) += 1;
            if o.nontrivial && s.keys.insert(o.key) && s.samples.len() < 1 { s.samples.push(v) }
          }
          Err(e) => { s.fail = Some((v, e)); stop.store(true, Ordering::Relaxed); break }
        }
        k += sn;
      }
      let _ = std::fs::remove_file(&casefile);
      s
    }),
    replay: Box::new(move |v| {
      let c: C = serde_json::from_value(v).map_err(|e| format!("bad replay: {}", e))?;
      guarded(&check2, &c).map(|_| ())
    }),
  }
}

pub struct Report {
  pub evals: u64,
  pub distinct: u64,
  pub labels: BTreeMap<String, u64>,
  pub samples: Vec<Value>,
  pub fails: Vec<(Value, String)>,
}

pub fn run_groups(groups: &[Group], thorough: bool, seed: u64, threads: usize) -> Report {
  // work list: group shards, big groups first
  let mut work: Vec<(usize, u32, u64, u32, u32)> = Vec::new();
  for (gi, g) in groups.iter().enumerate() {
    let n = if thorough { g.thorough } else { g.quick };
    // a fraction of the cases only, for measuring the checks against many planted changes
    let n = match std::env::var("RLCHECK_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) { Some(f) => ((n as f64 * f).ceil() as u32).max(1), None => n };
    let sh = g.shards.min(n.max(1)).max(1);
    for s in 0..sh {
      let c = n / sh + if s < n % sh { 1 } else { 0 };
      if c == 0 { continue; }
      let mut r = Rng::new(seed ^ hash_bytes(g.name.as_bytes()));
      for _ in 0..s { r.u64(); }
      work.push((gi, c, r.u64(), s, sh));
    }
  }
  let next = AtomicUsize::new(0);
  let stop = AtomicBool::new(false);
  let rep = Mutex::new(Report { evals: 0, distinct: 0, labels: BTreeMap::new(), samples: vec![], fails: vec![] });
  let keys: Mutex<HashSet<(usize, u64)>> = Mutex::new(HashSet::new());
  let per_group_samples: Mutex<BTreeMap<usize, u32>> = Mutex::new(BTreeMap::new());
  std::thread::scope(|sc| {
    for _ in 0..threads {
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        if k >= work.len() || stop.load(Ordering::Relaxed) { break; }
        let (gi, c, s, si, sn) = work[k];
        let t0 = std::time::Instant::now();
        let sh = (groups[gi].run)(c, s, si, sn, &stop);
        if std::env::var("RLCHECK_TIMING").is_ok() {
          eprintln!("timing {} cases={} {:.2}s", groups[gi].name, c, t0.elapsed().as_secs_f64());
        }
        let mut r = rep.lock().unwrap();
        r.evals += sh.evals;
        for (l, n) in sh.labels { *r.labels.entry(l).or_insert(0) += n; }
        let mut ks = keys.lock().unwrap();
        for key in sh.keys { ks.insert((gi, key)); }
        let mut pg = per_group_samples.lock().unwrap();
        let e = pg.entry(gi).or_insert(0);
        for s in sh.samples { if *e < 1 && r.samples.len() < 60 { *e += 1; r.samples.push(s); } }
        if let Some(f) = sh.fail { r.fails.push(f); }
      }).unwrap();
    }
  });
  let mut r = rep.into_inner().unwrap();
  r.distinct = keys.into_inner().unwrap().len() as u64;
  r
}

pub fn replay(groups: &[Group], v: &Value) -> Result<(), String> {
  let name = v["group"].as_str().unwrap_or("");
  for g in groups {
    if g.name == name { return (g.replay)(v["case"].clone()); }
  }
  Err(format!("no group {}", name))
}
