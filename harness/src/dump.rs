//! Writes the input of a recorded case to files of its own, for demonstrations outside this
//! harness.
use crate::fmt::{self, Spec};
use crate::props::{decode, pipeline};
use crate::pipe::{self, ImgSpec};
use serde_json::Value;
use std::fmt::Write;

fn find<'a>(v: &'a Value, f: &dyn Fn(&Value) -> bool) -> Option<&'a Value> {
  if f(v) { return Some(v) }
  match v {
    Value::Object(m) => m.values().filter_map(|x| find(x, f)).next(),
    Value::Array(a) => a.iter().filter_map(|x| find(x, f)).next(),
    _ => None,
  }
}

pub fn dump(file: &str, dir: &str) {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
  let c = &v["replay"]["case"];
  if v["property"] == "C10" {
    std::fs::write(format!("{}/input.raw", dir), crate::props::robust::bytes_of(&serde_json::from_value(c.clone()).unwrap())).unwrap();
  } else if let Some(i) = find(c, &|x| x.get("wbkind").is_some()) {
    let mut s: ImgSpec = serde_json::from_value(i.clone()).unwrap();
    let (mut mw, mut mh) = find(c, &|x| x.get("mw").is_some()).map_or((0, 0), |x| (x["mw"].as_u64().unwrap(), x["mh"].as_u64().unwrap()));
    if v["property"] == "C15" { s = pipeline::plain(&s) }
    let m = pipe::make(&s);
    let mut r = m.raw.clone();
    if v["property"] == "C15" {
      let (w, h) = pipeline::visible(&r);
      let l = pipeline::scaled_limits(&serde_json::from_value(c.clone()).unwrap(), w, h);
      mw = l.0 as u64;
      mh = l.1 as u64;
    }
    if let Some(p) = c.get("pow") { for k in 0..4 { r.wb_coeffs[k] *= (2f32).powi(p.as_i64().unwrap() as i32) } }
    let mut o = String::new();
    let mut line = |v: Vec<String>| writeln!(o, "{}", v.join(" ")).unwrap();
    line(vec![r.width.to_string(), r.height.to_string(), r.cpp.to_string()]);
    line(r.crops.iter().map(|x| x.to_string()).collect());
    line(r.wb_coeffs.iter().map(|x| x.to_bits().to_string()).collect());
    line(r.blacklevels.iter().map(|x| x.to_string()).collect());
    line(r.whitelevels.iter().map(|x| x.to_string()).collect());
    line(r.xyz_to_cam.iter().flat_map(|x| x.iter()).map(|x| x.to_bits().to_string()).collect());
    line(vec![if m.pattern.is_empty() { "-".to_string() } else { m.pattern.clone() }]);
    line(vec![fmt::orient_code(r.orientation).to_string(), mw.to_string(), mh.to_string()]);
    line(r.data.iter().map(|x| x.to_string()).collect());
    std::fs::write(format!("{}/input.img", dir), o).unwrap();
  } else if let Some(s) = find(c, &|x| x.get("kind").is_some() && x.get("lay").is_some()) {
    let mut s: Spec = serde_json::from_value(s.clone()).unwrap();
    if let Some(l) = c.get("lays") { s.lay = serde_json::from_value(l[l.as_array().unwrap().len() - 1].clone()).unwrap() }
    let b = match v["replay"]["group"].as_str() {
      Some("unknown-compression") => crate::tiffw::with_override(0x103, decode::unknown_scheme(&serde_json::from_value(c.clone()).unwrap()), || fmt::build(&s).bytes).0,
      Some("unknown-depth") => crate::tiffw::with_override(0x102, decode::unknown_depth(&serde_json::from_value(c.clone()).unwrap()), || fmt::build(&s).bytes).0,
      _ => fmt::build(&s).bytes,
    };
    std::fs::write(format!("{}/input.raw", dir), b).unwrap();
  } else {
    eprintln!("nothing to write for this case");
    std::process::exit(1);
  }
}

/// Writes n well-formed files of every kind, as a starting point for coverage-guided fuzzing.
pub fn corpus(dir: &str, n: usize) {
  use proptest::strategy::{Strategy, ValueTree};
  use proptest::test_runner::{Config, TestRunner};
  let mut r = TestRunner::new_with_rng(Config::default(), proptest::test_runner::TestRng::deterministic_rng(proptest::test_runner::RngAlgorithm::ChaCha));
  std::fs::create_dir_all(dir).unwrap();
  for k in fmt::kinds() {
    let st = fmt::spec_strat(vec![k.name]);
    let mut i = 0;
    while i < n {
      let mut s = st.new_tree(&mut r).unwrap().current();
      s.w = s.w.min(24);
      s.h = s.h.min(12);
      s.lay.far = 0;
      std::fs::write(format!("{}/{}-{}", dir, k.name, i), fmt::build(&s).bytes).unwrap();
      i += if k.heavy { n } else { 1 };
    }
  }
}
