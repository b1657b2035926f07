//! The command line tool: a raw file in, a PPM file out.
use super::Prop;
use crate::engine::*;
use crate::fmt::*;
use crate::props::robust::{bytes_of, mutated_strat, Case};
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Strategy};
use proptest::prop_oneof;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

fn tool() -> PathBuf { crate::supervise::verif().join("cli/target/debug/rawloader") }
struct Ran { code: Option<i32>, stdout: String }
fn call(args: &[&str], cwd: &Path) -> Ran {
  let o = Command::new(tool()).args(args).current_dir(cwd).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("the tool has not been built");
  Ran { code: o.status.code(), stdout: String::from_utf8_lossy(&o.stdout).to_string() }
}
fn own_dir() -> PathBuf {
  let d = slot().0.with_extension("cli");
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir_all(&d).expect("directory");
  d
}
fn files(d: &Path) -> Vec<String> {
  let mut v: Vec<String> = std::fs::read_dir(d).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect();
  v.sort();
  v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Convert { spec: Spec, name: u8, outname: u8 }

fn check_convert(c: &Convert) -> Result<Out, String> {
  let mut s = c.spec.clone();
  let cam = cam_for(&s);
  // at least as large as what the camera's crops take away
  s.w = s.w.min(300) + (cam.crops[1] + cam.crops[3]) as u32 + 2;
  s.h = s.h.min(200) + (cam.crops[0] + cam.crops[2]) as u32 + 2;
  if c.name % 16 == 9 { s.w += 262; s.h += 230 } // sums beyond 32 bits
  let smp = build(&s);
  let d = own_dir();
  let name = ["IMG_1.CR2", "photo", "a b.nef", "x.ppm", "ü.raw", "d.o.t.s"][c.name as usize % 6];
  std::fs::write(d.join(name), &smp.bytes).expect("write");
  let raw = rawloader::decode(d.join(name).to_str().unwrap()).map_err(|e| format!("{}: well-formed file rejected: {}", smp.label, e))?;
  if raw.crops[0] + raw.crops[2] >= raw.height || raw.crops[1] + raw.crops[3] >= raw.width { return out("smaller than the crops", false, 0) }
  let rgb = raw.to_rgb(0, 0)?;
  let mut want = format!("P6 {} {} 255\n", rgb.width, rgb.height).into_bytes();
  for v in &rgb.data { want.push((v.max(0.0) * 255.0).min(255.0) as u8) }
  let given = c.outname % 3 != 0;
  let outname = if given { ["out.ppm", "sub/out", "result of it.ppm", "z.jpg"][c.outname as usize / 3 % 4].to_string() } else { format!("{}.ppm", name) };
  std::fs::create_dir_all(d.join("sub")).expect("directory");
  // an older, longer file is replaced
  if c.outname & 0x40 != 0 { std::fs::write(d.join(&outname), vec![7u8; want.len() + 1000]).expect("write") }
  let abs = c.outname & 0x80 != 0;
  let (ia, oa) = if abs { (d.join(name).to_str().unwrap().to_string(), d.join(&outname).to_str().unwrap().to_string()) } else { (name.to_string(), outname.clone()) };
  let mut args = vec![ia.as_str()];
  if given { args.push(oa.as_str()) }
  let r = call(&args, &d);
  let r = (|| {
    if r.code != Some(0) { return Err(format!("{}: exit status {:?} for a file that decodes", smp.label, r.code)) }
    let got = std::fs::read(d.join(&outname)).map_err(|e| format!("{}: output {:?} is missing: {}", smp.label, outname, e))?;
    if got.len() != want.len() { return Err(format!("{}: the output has {} bytes instead of {} ({:?} ...)", smp.label, got.len(), want.len(), String::from_utf8_lossy(&got[..got.len().min(20)]))) }
    if let Some(k) = (0..got.len()).find(|&k| got[k] != want[k]) { return Err(format!("{}: byte {} of the output is {} instead of {}", smp.label, k, got[k], want[k])) }
    if std::fs::read(d.join(name)).ok().as_ref() != Some(&smp.bytes) { return Err("the input file was changed".into()) }
    let mut expect = vec!["sub".to_string(), name.to_string()];
    if !outname.starts_with("sub/") { expect.push(outname.clone()) }
    expect.sort();
    if files(&d) != expect { return Err(format!("files afterwards: {:?}", files(&d))) }
    let n = raw.data.len();
    let (sum, min, max) = raw.data.iter().fold((0u64, u16::MAX, 0u16), |a, v| (a.0 + *v as u64, a.1.min(*v), a.2.max(*v)));
    for (what, t) in [("make", raw.make.clone()), ("model", raw.model.clone()), ("clean make", raw.clean_make.clone()), ("clean model", raw.clean_model.clone()), ("size", format!("{}x{}", raw.width, raw.height)),
      ("levels", format!("{:?}", raw.blacklevels)), ("levels", format!("{:?}", raw.whitelevels)), ("crops", format!("{:?}", raw.crops)),
      ("sum", format!("sum: {}\n", sum)), ("min", format!("min: {}\n", min)), ("max", format!("max: {}\n", max)), ("avg", format!("avg: {}\n", sum / n as u64))] {
      if !r.stdout.contains(&t) { return Err(format!("{}: the {} {:?} is not in what it printed", smp.label, what, t)) }
    }
    Ok(())
  })();
  let _ = std::fs::remove_dir_all(&d);
  r?;
  out(format!("{}{}", if given { "named output" } else { "default output" }, if transposed(&raw) { ", rotated" } else { "" }), rgb.data.iter().any(|v| *v != rgb.data[0]), hash_bytes(&smp.bytes))
}
fn transposed(r: &rawloader::RawImage) -> bool { orient_code(r.orientation) > 1 }

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad { NoArgs, Missing(u8), Refused(Case), NoDir(Spec), IsDir(Spec), Full(Spec, bool) }
fn check_bad(c: &Bad) -> Result<Out, String> {
  let d = own_dir();
  let small = |s: &Spec| { let mut s = s.clone(); let cam = cam_for(&s); s.w = s.w.min(60) + (cam.crops[1] + cam.crops[3]) as u32 + 2; s.h = s.h.min(60) + (cam.crops[0] + cam.crops[2]) as u32 + 2; build(&s).bytes };
  let mut before = vec![];
  let (r, want, label) = match c {
    Bad::NoArgs => (call(&[], &d), 1, "no arguments"),
    Bad::Missing(k) => (call(&[["nothing.raw", "no/where.cr2", "", "x y"][*k as usize % 4]], &d), 2, "no such file"),
    Bad::Refused(m) => {
      let b = bytes_of(m);
      std::fs::write(d.join("f.raw"), &b).expect("write");
      before = vec!["f.raw".to_string()];
      if rawloader::decode(d.join("f.raw").to_str().unwrap()).is_ok() { let _ = std::fs::remove_dir_all(&d); return out("decodes after all", false, 0) }
      (call(&["f.raw", "out.ppm"], &d), 2, "file that is refused")
    }
    Bad::NoDir(s) => {
      std::fs::write(d.join("f.raw"), small(s)).expect("write");
      before = vec!["f.raw".to_string()];
      let raw = rawloader::decode(d.join("f.raw").to_str().unwrap())?;
      if raw.crops[0] + raw.crops[2] >= raw.height || raw.crops[1] + raw.crops[3] >= raw.width { return out("smaller than the crops", false, 0) }
      (call(&["f.raw", "no/such/dir/out.ppm"], &d), 2, "output cannot be created")
    }
    Bad::IsDir(s) => {
      std::fs::write(d.join("f.raw"), small(s)).expect("write");
      std::fs::create_dir(d.join("out")).expect("directory");
      before = vec!["f.raw".to_string(), "out".to_string()];
      let raw = rawloader::decode(d.join("f.raw").to_str().unwrap())?;
      if raw.crops[0] + raw.crops[2] >= raw.height || raw.crops[1] + raw.crops[3] >= raw.width { return out("smaller than the crops", false, 0) }
      (call(&["f.raw", "out"], &d), 2, "output is a directory")
    }
    Bad::Full(s, large) => {
      use std::os::unix::fs::FileTypeExt;
      // a device that takes nothing; some outputs fit the tool's buffer, some do not
      if !std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false) { let _ = std::fs::remove_dir_all(&d); return out("no device to fill", false, 0) }
      let b = if *large { small(s) } else { let mut s = s.clone(); s.w = s.w.min(4); s.h = s.h.min(4); small(&s) };
      std::fs::write(d.join("f.raw"), b).expect("write");
      before = vec!["f.raw".to_string()];
      let raw = rawloader::decode(d.join("f.raw").to_str().unwrap())?;
      if raw.crops[0] + raw.crops[2] >= raw.height || raw.crops[1] + raw.crops[3] >= raw.width { return out("smaller than the crops", false, 0) }
      (call(&["f.raw", "/dev/full"], &d), 2, "output cannot be written")
    }
  };
  let after = files(&d);
  let _ = std::fs::remove_dir_all(&d);
  if r.code != Some(want) { return Err(format!("{}: exit status {:?} instead of {}", label, r.code, want)) }
  if want == 2 && !r.stdout.contains("ERROR: ") { return Err(format!("{}: no error message", label)) }
  if want == 1 && !r.stdout.contains("<file>") { return Err(format!("{}: no usage message", label)) }
  if after != before { return Err(format!("{}: files afterwards: {:?}", label, after)) }
  out(label, true, hash_bytes(serde_json::to_string(c).unwrap().as_bytes()))
}

fn light() -> Vec<&'static str> { kinds().iter().filter(|k| !k.heavy).map(|k| k.name).collect() }
fn bad_strat() -> BoxedStrategy<Bad> {
  prop_oneof![
    1 => any::<bool>().prop_map(|_| Bad::NoArgs),
    2 => any::<u8>().prop_map(Bad::Missing),
    20 => mutated_strat(light()).prop_map(Bad::Refused),
    4 => spec_strat(light()).prop_map(Bad::NoDir),
    4 => spec_strat(light()).prop_map(Bad::IsDir),
    6 => (spec_strat(light()), any::<bool>()).prop_map(|(s, l)| Bad::Full(s, l)),
  ].boxed()
}

pub fn props() -> Vec<Prop> {
  vec![Prop { id: "C20", threads: 0, both_builds: false, assumptions: &["the tool is built from /repo/src/bin/rawloader.rs by a crate in /verif/cli"],
    rule: "generated raw files of every kind converted by the tool with default and given output names, relative and absolute, over existing files; the output must be the PPM of the processed image. And arguments that must fail: none, missing and refused files, outputs that cannot be created or written. Non-trivial: the image is not uniform, or the failure was provoked; distinct by content",
    groups: || vec![
      group_dyn("convert", 1_500, 40_000, Arc::new(|| (spec_strat(light()), any::<u8>(), any::<u8>()).prop_map(|(spec, name, outname)| Convert { spec, name, outname }).boxed()), check_convert),
      group("fail", 1_200, 20_000, bad_strat, check_bad),
    ] }]
}
