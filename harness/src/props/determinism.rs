//! Results depend on nothing but the content: not on the name of the file, on what was decoded
//! before or at the same time, on the number of worker threads or on the process.
use super::pipeline::{big_strat, max_strat, Sized};
use super::robust::{bytes_of, mutated_strat, noise_strat, Case};
use super::Prop;
use crate::engine::*;
use crate::fmt::*;
use crate::pipe;
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Strategy};
use proptest::prop_oneof;
use rawloader::RawImage;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
  Good(Spec),
  Mutated(Case),
  Process(Sized),
}

fn digest_raw(r: &Result<RawImage, String>) -> String {
  match r {
    Err(e) => format!("refused: {}", e),
    Ok(i) => {
      let mut m = vec![];
      for v in i.wb_coeffs.iter() { m.extend(v.to_bits().to_le_bytes()) }
      for r in i.xyz_to_cam.iter() { for v in r { m.extend(v.to_bits().to_le_bytes()) } }
      let mut colors = vec![];
      if i.cfa.is_valid() { for r in 0..16 { for c in 0..16 { colors.push(i.cfa.color_at(r, c) as u8) } } }
      format!("{}/{}/{}/{} {}x{}x{} {:?} {:?} {:?} {:?} {:x} {:x} {:x}", i.make, i.model, i.clean_make, i.clean_model, i.width, i.height, i.cpp,
        i.whitelevels, i.blacklevels, i.crops, i.orientation, hash_bytes(&m), hash_bytes(&colors), hash_u16(&i.data))
    }
  }
}

fn digest_rgb(i: &RawImage, mw: usize, mh: usize) -> String {
  let f = |d: &[f32]| { let mut h = vec![]; for v in d { h.extend(v.to_bits().to_le_bytes()) } hash_bytes(&h) };
  let mut s = String::new();
  match i.to_rgb(mw, mh) { Ok(o) => s += &format!("{}x{} {:x} ", o.width, o.height, f(&o.data)), Err(e) => s += &e }
  match i.to_linear_rgb(mw, mh) { Ok(o) => s += &format!("{}x{} {:x} ", o.width, o.height, f(&o.data)), Err(e) => s += &e }
  match i.to_srgb(mw, mh) { Ok(o) => s += &format!("{}x{} {:x} ", o.width, o.height, hash_bytes(&o.data)), Err(e) => s += &e }
  s
}

/// what the item is worked on with: the bytes of the file, or the image
enum Ready { Bytes(Vec<u8>), Image(RawImage, usize, usize) }
fn ready(i: &Item) -> Ready {
  match i {
    Item::Good(s) => Ready::Bytes(build(s).bytes),
    Item::Mutated(c) => Ready::Bytes(bytes_of(c)),
    Item::Process(s) => Ready::Image(pipe::make(&s.img).raw, s.mw as usize, s.mh as usize),
  }
}
fn work(r: &Ready, path: &str) -> String {
  match r {
    Ready::Bytes(_) => digest_raw(&rawloader::decode(path)),
    Ready::Image(i, mw, mh) => digest_rgb(i, *mw, *mh),
  }
}

fn item_strat() -> BoxedStrategy<Item> {
  let all: Vec<&'static str> = kinds().iter().filter(|k| !k.heavy).map(|k| k.name).collect();
  let all2 = all.clone();
  prop_oneof![
    8 => spec_strat(all).prop_map(|mut s| { if s.w as u64 * s.h as u64 > 200_000 { s.h = s.h / 4 + 1 } Item::Good(s) }),
    4 => mutated_strat(all2).prop_map(Item::Mutated),
    1 => noise_strat().prop_map(Item::Mutated),
    4 => max_strat(60).prop_map(Item::Process),
    1 => big_strat().prop_map(|mut s| { s.img.w = s.img.w.min(700); s.img.h = s.img.h.min(500); Item::Process(s) }),
  ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch { items: Vec<Item>, threads: u8, seed: u32 }

fn own_dir() -> PathBuf {
  let d = slot().0.with_extension("dir");
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir_all(&d).expect("directory");
  d
}

/// the files of a batch, written once
fn lay_out(b: &[Item]) -> (PathBuf, Vec<Ready>, Vec<String>) {
  let d = own_dir();
  let rs: Vec<Ready> = b.iter().map(ready).collect();
  let paths = rs.iter().enumerate().map(|(k, r)| {
    let p = d.join(format!("f{}.raw", k));
    if let Ready::Bytes(b) = r { std::fs::write(&p, b).expect("write") }
    p.to_str().unwrap().to_string()
  }).collect();
  (d, rs, paths)
}

/// One after the other, then again in other orders and from several threads at once.
fn check_concurrent(b: &Batch) -> Result<Out, String> {
  let (d, rs, paths) = lay_out(&b.items);
  let n = rs.len();
  let first: Vec<String> = (0..n).map(|k| work(&rs[k], &paths[k])).collect();
  let nt = 2 + b.threads as usize % 5;
  let bad = std::sync::Mutex::new(None);
  std::thread::scope(|sc| {
    for t in 0..nt {
      let (rs, paths, first, bad) = (&rs, &paths, &first, &bad);
      let mut r = Rng::new(b.seed as u64 * 64 + t as u64);
      sc.spawn(move || {
        let mut order: Vec<usize> = (0..n).chain(0..n).collect();
        for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize) }
        for k in order {
          let g = work(&rs[k], &paths[k]);
          if g != first[k] { *bad.lock().unwrap() = Some(format!("item {}: {} at first, {} later beside {} other threads", k, first[k], g, nt - 1)) }
        }
      });
    }
  });
  for k in 0..n { if let Ready::Bytes(x) = &rs[k] { if std::fs::read(&paths[k]).ok().as_ref() != Some(x) { return Err(format!("item {}: decoding changed the file", k)) } } }
  let _ = std::fs::remove_dir_all(&d);
  if let Some(m) = bad.into_inner().unwrap() { return Err(m) }
  let good = first.iter().filter(|f| !f.starts_with("refused")).count();
  out(format!("{} threads", nt), n > 1 && good > 0, hash_bytes(first.join("|").as_bytes()))
}

/// The same in processes of their own, with different numbers of worker threads and orders.
fn check_processes(b: &Batch) -> Result<Out, String> {
  let (d, rs, paths) = lay_out(&b.items);
  let n = rs.len();
  let first: Vec<String> = (0..n).map(|k| work(&rs[k], &paths[k])).collect();
  let f = d.join("items.json");
  std::fs::write(&f, serde_json::to_string(&b.items).unwrap()).expect("write");
  let mut runs = vec![];
  for (k, workers) in [1usize, 2 + b.threads as usize % 7, 0].iter().enumerate() {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("hashes").arg(&f).arg(&d).arg(format!("{}", b.seed as usize * 3 + k)).arg(d.join(format!("answer{}", k)));
    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    if *workers > 0 { c.env("RAYON_NUM_THREADS", workers.to_string()).env("RAYON_RS_NUM_CPUS", workers.to_string()); }
    runs.push((*workers, c.spawn().expect("spawn")));
  }
  let mut bad = None;
  for (r, (workers, mut ch)) in runs.into_iter().enumerate() {
    let st = ch.wait().expect("wait");
    if !st.success() { bad = Some(format!("a process with {} worker threads ended with {}", workers, st)); continue }
    let got: Vec<String> = serde_json::from_slice(&std::fs::read(d.join(format!("answer{}", r))).expect("answer")).expect("answer of the child");
    for k in 0..n { if got[k] != first[k] { bad = Some(format!("item {}: {} here, {} in a process with {} worker threads", k, first[k], got[k], workers)) } }
  }
  let _ = std::fs::remove_dir_all(&d);
  if let Some(m) = bad { return Err(m) }
  let good = first.iter().filter(|f| !f.starts_with("refused")).count();
  out("processes", n > 1 && good > 0, hash_bytes(first.join("|").as_bytes()))
}

/// `hashes <items> <dir> <order seed> <answer>`: writes the digests
pub fn hashes_child(a: &[String]) {
  let items: Vec<Item> = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
  let dir = PathBuf::from(&a[1]);
  let mut r = Rng::new(a[2].parse::<u64>().unwrap());
  let mut order: Vec<usize> = (0..items.len()).collect();
  for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize) }
  let mut got = vec![String::new(); items.len()];
  for k in order { got[k] = work(&ready(&items[k]), dir.join(format!("f{}.raw", k)).to_str().unwrap()) }
  std::fs::write(&a[3], serde_json::to_string(&got).unwrap()).expect("write");
  std::process::exit(0);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named { item: Item, names: Vec<u8>, stem: u16 }

fn check_names(c: &Named) -> Result<Out, String> {
  let bytes = match ready(&c.item) { Ready::Bytes(b) => b, _ => return out("not a file", false, 0) };
  let d = own_dir();
  let mut first: Option<String> = None;
  const EXT: [&str; 24] = ["", ".raw", ".RAW", ".jpg", ".CR2", ".nef", ".NEF", ".dng", ".arw", ".orf", ".rw2", ".raf", ".pef", ".srw", ".mrw", ".crw", ".x3f", ".tif", ".kdc", ".dcr", ".iiq", ".3fr", ".ari", ".tar.gz"];
  const END: [&str; 8] = ["", "", "", " ", ".", "~", "\n", "\\"];
  for k in &c.names {
    let stem = match k / 24 { 0 => format!("IMG_{}", c.stem), 1 => format!("with blanks {}", c.stem), 2 => "Ünïcödé-写真".to_string(), 3 => "x".repeat(100 + c.stem as usize % 100), 4 => ".hidden".to_string(), 5 => "a.b.c".to_string(), 6 => "-f".to_string(), 7 => "%s\\n'\"".to_string(), 8 => " leading".to_string(), 9 => "tab\tand\nline".to_string(), _ => "CAPS".to_string() };
    let name = format!("{}{}{}", stem, EXT[*k as usize % 24], END[(c.stem as usize >> 3 ^ *k as usize) % 8]);
    let sub = d.join(if k % 2 == 0 { "p" } else { "some where/else" });
    std::fs::create_dir_all(&sub).expect("directory");
    let p = sub.join(&name);
    std::fs::write(&p, &bytes).expect("write");
    let mut perm = std::fs::metadata(&p).unwrap().permissions();
    perm.set_readonly(true);
    let _ = std::fs::set_permissions(&p, perm);
    let before = std::fs::metadata(&p).unwrap().modified().ok();
    // the path as it is, from the current directory, with more in it than needed, or through a link
    let full = p.to_str().unwrap();
    let links = d.join("links");
    let path = match (c.stem as usize + *k as usize) % 5 {
      1 => { let up = std::env::current_dir().map(|x| x.components().count() - 1).unwrap_or(0); format!("{}{}", "../".repeat(up), full.trim_left_matches('/')) }
      2 => full.replace("/", "//"),
      3 => format!("{}/./../{}/{}", sub.to_str().unwrap(), sub.file_name().unwrap().to_str().unwrap(), name),
      4 => { std::fs::create_dir_all(&links).expect("directory"); let l = links.join(&name); let _ = std::fs::remove_file(&l); std::os::unix::fs::symlink(&p, &l).expect("link"); l.to_str().unwrap().to_string() }
      _ => full.to_string(),
    };
    let g = digest_raw(&rawloader::decode(&path));
    if std::fs::read(&p).ok().as_ref() != Some(&bytes) || std::fs::metadata(&p).unwrap().modified().ok() != before { return Err(format!("decoding changed the file {:?}", name)) }
    let count = std::fs::read_dir(&sub).unwrap().count();
    if count != 1 { return Err(format!("decoding left {} other files beside {:?}", count - 1, name)) }
    std::fs::remove_file(&p).expect("remove");
    match &first { None => first = Some(g), Some(f) => if *f != g { return Err(format!("named {:?}: {}; named otherwise: {}", name, g, f)) } }
  }
  let _ = std::fs::remove_dir_all(&d);
  let f = first.unwrap_or_default();
  out(if f.starts_with("refused") { "refused" } else { "decoded" }, c.names.len() > 1 && !f.starts_with("refused"), hash_bytes(&bytes))
}

/// A source that hands out its bytes in pieces, is interrupted now and then, and may fail.
struct Pieces<'a> { data: &'a [u8], at: usize, rng: Rng, style: u8, fail_at: Option<usize> }
impl<'a> std::io::Read for Pieces<'a> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    use std::io::{Error, ErrorKind};
    if self.style & 8 != 0 && self.rng.below(3) == 0 { return Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
    let mut n = match self.style % 4 { 0 => buf.len(), 1 => 1 + self.rng.below(7) as usize, 2 => 1 + self.rng.below(5000) as usize, _ => 1 + self.rng.below(64) as usize };
    n = n.min(buf.len()).min(self.data.len() - self.at);
    if let Some(f) = self.fail_at {
      if self.at >= f { return Err(Error::new([ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::TimedOut][self.style as usize / 16 % 4], "failing source")) }
      n = n.min(f - self.at);
    }
    buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}
fn loader() -> &'static rawloader::decoders::RawLoader {
  static L: std::sync::OnceLock<rawloader::decoders::RawLoader> = std::sync::OnceLock::new();
  L.get_or_init(rawloader::decoders::RawLoader::new)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Source { spec: Spec, style: u8, seed: u32, fail: u32 }
pub fn source_strat() -> BoxedStrategy<Source> {
  let all: Vec<&'static str> = kinds().iter().filter(|k| !k.heavy).map(|k| k.name).collect();
  (spec_strat(all), any::<u8>(), any::<u32>(), any::<u32>()).prop_map(|(mut spec, style, seed, fail)| { spec.w = spec.w.min(150); spec.h = spec.h.min(60); Source { spec, style, seed, fail } }).boxed()
}

/// from a file, and from a source that delivers the same bytes in pieces
pub fn check_pieces(c: &Source) -> Result<Out, String> {
  let b = build(&c.spec).bytes;
  let a = digest_raw(&decode(&b));
  let mut src = Pieces { data: &b, at: 0, rng: Rng::new(c.seed as u64), style: c.style, fail_at: None };
  let g = digest_raw(&loader().decode(&mut src));
  if a != g { return Err(format!("{}: {} from a file, {} from a source that delivers it in pieces", c.spec.kind, a, g)) }
  out("in pieces", !a.starts_with("refused"), hash_bytes(&b))
}

/// a source that fails before its end
pub fn check_failing(c: &Source) -> Result<Out, String> {
  let b = build(&c.spec).bytes;
  let n = match c.fail % 3 { 0 => 0, 1 => b.len(), _ => c.fail as usize % b.len().max(1) };
  let mut src = Pieces { data: &b, at: 0, rng: Rng::new(c.seed as u64), style: c.style, fail_at: Some(n) };
  match loader().decode(&mut src) {
    Ok(_) => Err(format!("{}: an image although the source failed after {} of {} bytes", c.spec.kind, n, b.len())),
    Err(e) if e.trim().is_empty() => Err("empty error message".into()),
    Err(_) => out("failing source", true, hash_bytes(&b) ^ n as u64),
  }
}

fn batch_strat(lo: usize, hi: usize) -> BoxedStrategy<Batch> {
  (proptest::collection::vec(item_strat(), lo..hi), any::<u8>(), any::<u32>()).prop_map(|(items, threads, seed)| Batch { items, threads, seed }).boxed()
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C11", threads: 4, both_builds: false, assumptions: &["thread interleavings are those that the scheduler of this machine produces; they are repeated, not enumerated"],
      rule: "batches of well-formed and damaged files and of images to process: digests of all results, once in order, then repeatedly from 2-6 threads in random orders; in separate processes with 1, 2-8 and the default number of worker threads, in other orders; and under names with other extensions, read-only. Non-trivial: more than one item or name and at least one of them decodes",
      groups: || vec![
        group_dyn("concurrent", 700, 30_000, Arc::new(|| batch_strat(1, 9)), check_concurrent),
        group_dyn("processes", 150, 3_000, Arc::new(|| batch_strat(5, 40)), check_processes),
        group("pieces", 12_000, 200_000, source_strat, check_pieces),
        group_dyn("names", 12_000, 160_000, Arc::new(|| (item_strat(), proptest::collection::vec(any::<u8>(), 2..6), any::<u16>()).prop_map(|(item, names, stem)| Named { item, names, stem }).boxed()), check_names),
      ] },
  ]
}
