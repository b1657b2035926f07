//! Decoding well-formed files: samples, identification, white balance, levels, orientation,
//! independence of the container layout, rejection of what is not supported.
use super::Prop;
use crate::db;
use crate::engine::*;
use crate::fmt::*;
use crate::ljpegw::{with_strange, Strange};
use crate::tiffw::{with_override, Layout};
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Just, Strategy};
use proptest::prop_oneof;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub fn check_decode(s: &Spec, parts: Parts) -> Result<Out, String> {
  let smp = build(s);
  let img = decode(&smp.bytes).map_err(|e| format!("{}: well-formed file rejected: {}", smp.label, e))?;
  compare(&img, &smp.exp, parts).map_err(|e| format!("{}: {}", smp.label, e))?;
  let distinct = img.data.iter().take(4096).collect::<std::collections::HashSet<_>>().len();
  out(smp.label, distinct > 1, hash_bytes(&smp.bytes))
}

pub fn print_cover() {
  let mut used = std::collections::BTreeMap::new();
  let mut pairs = 0;
  for k in kinds() {
    let v = cams_of(k);
    pairs += v.len();
    for c in v { used.entry((c.make.clone(), c.model.clone(), c.mode.clone())).or_insert_with(Vec::new).push(k.name); }
  }
  println!("{} kinds, {} cameras of {}, {} pairs", kinds().len(), used.len(), db::all().len(), pairs);
  for c in db::all() {
    if !used.contains_key(&(c.make.clone(), c.model.clone(), c.mode.clone())) { println!("not covered: {:?} {:?} {:?} {:?}", c.make, c.model, c.mode, c.vendor) }
  }
}

/// one group per encoding variant
fn per_kind(sel: fn(&Kind) -> bool, parts: Parts, quick: u32, thorough: u32) -> Vec<Group> {
  let mut v = vec![];
  for k in kinds() {
    if !sel(k) { continue }
    let name: &'static str = k.name;
    let (q, t) = if k.heavy { (quick / 50 + 16, thorough / 50 + 16) } else { (quick, thorough) };
    v.push(group_dyn(name, q, t, Arc::new(move || spec_strat(vec![name])), move |s: &Spec| check_decode(s, parts)));
  }
  v
}

/// images of more than 65536 columns or rows, of kinds whose containers can state that
fn very_long(class: &'static str, parts: Parts) -> Group {
  let names: Vec<&'static str> = kinds().iter().filter(|k| k.class == class && !k.heavy && !["mrw", "raf", "rw2", "cr2", "crw", "3fr", "dng-strip"].iter().any(|x| k.name.starts_with(x))).map(|k| k.name).collect();
  group_dyn("very-long", 60, 1500, Arc::new(move || (spec_strat(names.clone()), 65_500u32..66_600, 1u32..4, any::<bool>())
    .prop_map(|(mut s, a, b, wide)| { s.w = if wide { a } else { b }; s.h = if wide { b } else { a }; s }).boxed()), move |s: &Spec| check_decode(s, parts))
}

/// cameras with masked areas, images so large that sums over the areas pass 32 bits
fn large_masks() -> Group {
  let names = kinds().iter().filter(|k| !k.heavy && cams_of(k).iter().any(|c| c.areav.1 > 60)).map(|k| k.name).collect::<Vec<_>>();
  group_dyn("large-masks", 40, 600, Arc::new(move || (spec_strat(names.clone()), 1u32..40, 3000u32..6000, any::<u32>())
    .prop_map(|(mut s, w, h, at)| {
      let all = cams_of(kind(&s.kind));
      let ok: Vec<u32> = (0..all.len() as u32).filter(|i| all[*i as usize].areav.1 > 60).collect();
      s.cam = ok[at as usize % ok.len()];
      s.w = w;
      s.h = h;
      s.pix.style = if at & 1 << 20 == 0 { 4 } else { s.pix.style };
      s
    }).boxed()), |s: &Spec| check_decode(s, Parts { levels: true, ..NONE }))
}

/// every (encoding variant, camera) pair, each with content derived from the seed
fn every_camera(name: &str, parts: Parts, rounds: u32) -> Group {
  let mut pairs: Vec<(&'static str, u32)> = vec![];
  for k in kinds() {
    // full-size encodings are expensive: each of their cameras once
    let n = cams_of(k).len() as u32;
    for r in 0..if k.heavy { 1 } else { rounds } { let _ = r; for i in 0..n { pairs.push((k.name, i)) } }
  }
  group_enum(name, pairs.len() as u32, move |i, seed| {
    let (kind, cam) = pairs[i as usize];
    let mut r = Rng::new(seed ^ (i as u64) << 20);
    Spec {
      kind: kind.to_string(), cam, w: 1 + r.below(40) as u32, h: 1 + r.below(24) as u32,
      pix: Pix { style: [1, 2, 3, 6][r.below(4) as usize], seed: r.u64() as u32 },
      orient: r.below(10) as u16, wb: [1 + r.below(4999) as u16, 1 + r.below(4999) as u16, 1 + r.below(4999) as u16, 1 + r.below(4999) as u16],
      opt: [r.u64() as u16, r.u64() as u16, r.u64() as u16, r.u64() as u16, r.u64() as u16, r.u64() as u16],
      lay: Layout { be: r.bool(), seed: r.below(1_000_000) as u32, pad: r.below(40) as u8, unknown: r.below(6) as u8, long: r.bool(), unsorted: r.bool(), tail: r.below(40) as u8, chain: 0, far: 0 },
    }
  }, move |s: &Spec| {
    let c = cam_for(s);
    let o = check_decode(s, parts).map_err(|e| format!("{} {} {}: {}", c.make, c.model, c.mode, e))?;
    out(format!("{}{}{}", c.vendor, if c.is_alias { " alias" } else { "" }, if c.is_mode { " mode" } else { "" }), true, o.key)
  })
}

// ---- layouts -------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Relayout { spec: Spec, lays: Vec<Layout> }

fn relayout_strat(names: Vec<&'static str>) -> BoxedStrategy<Relayout> {
  let extreme = (any::<bool>(), 0u32..1_000_000, 0u8..255, prop_oneof![9 => 0u8..60, 1 => 60u8..=255], any::<bool>(), any::<bool>(), 0u8..255, prop_oneof![3 => 0u8..1, 2 => 0u8..8, 1 => 0u8..90], prop_oneof![200 => Just(0u8), 1 => 1u8..20])
    .prop_map(|(be, seed, pad, unknown, long, unsorted, tail, chain, far)| {
      // a few huge directories or many small ones
      let unknown = if chain > 8 { unknown.min(80) } else { unknown };
      Layout { be, seed, pad, unknown, long, unsorted, tail, chain, far }
    });
  (spec_strat(names), proptest::collection::vec(prop_oneof![2 => layout_strat(), 1 => extreme, 1 => Just(Layout::default())], 1..4))
    .prop_map(|(mut spec, lays)| { spec.w = spec.w.min(200); spec.h = spec.h.min(60); Relayout { spec, lays } }).boxed()
}

fn check_relayout(r: &Relayout) -> Result<Out, String> {
  let mut plain = r.spec.clone();
  plain.lay = Layout::default();
  let mut key = 0u64;
  let mut label = String::new();
  let mut specs = vec![plain];
  for l in &r.lays { let mut s = r.spec.clone(); s.lay = l.clone(); specs.push(s); }
  for s in &specs {
    let smp = build(s);
    let img = decode(&smp.bytes).map_err(|e| format!("{}: well-formed file rejected in layout {:?}: {}", smp.label, s.lay, e))?;
    compare(&img, &smp.exp, ALL).map_err(|e| format!("{} in layout {:?}: {}", smp.label, s.lay, e))?;
    key = key.rotate_left(9) ^ hash_bytes(&smp.bytes);
    label = r.spec.kind.clone();
  }
  out(label, true, key)
}

// ---- rejection -----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unsupported { pub spec: Spec, pub how: u8, pub at: u8, pub ch: u8 }

fn change(s: &str, how: u8, at: u8, ch: u8) -> String {
  let mut b: Vec<u8> = s.bytes().collect();
  let ch = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[ch as usize % 62];
  let k = at as usize % b.len().max(1);
  match how % 4 {
    0 => b.push(ch),
    1 => b.insert(k, ch),
    2 => b[k] = ch,
    _ => { if b.len() > 3 { b.remove(k); } else { b.push(ch) } }
  }
  String::from_utf8_lossy(&b).to_string()
}

fn check_unknown_model(u: &Unsupported) -> Result<Out, String> {
  let mut c = cam_for(&u.spec).clone();
  let orig = c.model.clone();
  c.model = change(&orig, u.how, u.at, u.ch);
  // what is looked up: surrounding blanks are not part of a name
  let look = c.model.trim().to_string();
  if look != c.model || db::known_model(&look) || look == "DCS560C" { return out("became a known name", false, 0) }
  // the name is read up to an opening bracket in these
  if u.spec.kind.starts_with("mos") && c.model.contains('(') { return out("became a known name", false, 0) }
  let smp = (kind(&u.spec.kind).build)(&u.spec, &c);
  match decode(&smp.bytes) {
    Ok(i) => Err(format!("{}: a file of the unknown camera {:?} {:?} decoded as {:?} {:?} instead of being refused", smp.label, c.make, c.model, i.make, i.model)),
    Err(e) => {
      if e.trim().is_empty() { return Err("empty error message".into()) }
      out(u.spec.kind.clone(), true, hash_bytes(&smp.bytes))
    }
  }
}

fn check_unknown_make(u: &Unsupported) -> Result<Out, String> {
  let mut c = cam_for(&u.spec).clone();
  c.make = change(&c.make.clone(), u.how, u.at, u.ch);
  if c.make.trim() != c.make || db::all().iter().any(|k| k.make == c.make) { return out("became a known name", false, 0) }
  let smp = (kind(&u.spec.kind).build)(&u.spec, &c);
  match decode(&smp.bytes) {
    Ok(i) => Err(format!("{}: a file of the unknown maker {:?} decoded as {:?} {:?} instead of being refused", smp.label, c.make, i.make, i.model)),
    Err(e) => {
      if e.trim().is_empty() { return Err("empty error message".into()) }
      out(u.spec.kind.clone(), true, hash_bytes(&smp.bytes))
    }
  }
}

/// Some cameras are known only in some modes (bit depths, aspect ratios)
fn check_unknown_mode(u: &Unsupported) -> Result<Out, String> {
  let mut c = cam_for(&u.spec).clone();
  let all: &[&str] = if u.spec.kind.starts_with("nef") { &["12bit", "14bit"] } else { &["1:1", "4:3", "3:2", "16:9"] };
  let other: Vec<&&str> = all.iter().filter(|m| !db::known_mode(&c.make, &c.model, m)).collect();
  if other.is_empty() { return out("known in all modes", false, 0) }
  c.mode = other[u.at as usize % other.len()].to_string();
  let smp = (kind(&u.spec.kind).build)(&u.spec, &c);
  match decode(&smp.bytes) {
    Ok(i) => Err(format!("{}: a file of the camera {:?} {:?} in the unknown mode {:?} decoded as {:?} {:?} instead of being refused", smp.label, c.make, c.model, c.mode, i.make, i.model)),
    Err(e) if e.trim().is_empty() => Err("empty error message".into()),
    Err(_) => out(u.spec.kind.clone(), true, hash_bytes(&smp.bytes)),
  }
}

/// what each format defines
fn schemes(kind: &str) -> &'static [u32] {
  match &kind[..3] {
    "pef" => &[1, 32773, 65535],
    "srw" => &[32769, 32770, 32772, 32773],
    "dng" => &[1, 7],
    "mos" => &[1, 7, 99],
    "nef" => &[1, 34713],
    "arw" => &[1, 32767],
    _ => panic!("no compression entry in {}", kind),
  }
}
fn check_compression(u: &Unsupported) -> Result<Out, String> {
  let v = unknown_scheme(u);
  if schemes(&u.spec.kind).contains(&v) || v == 0 { return out("a known scheme", false, 0) }
  refused(u, 0x103, v, "compression")
}
pub fn unknown_scheme(u: &Unsupported) -> u32 {
  let known = [1u32, 7, 99, 0x884c, 262, 32767, 32769, 32770, 32771, 32772, 32773, 34713, 65535, 65000];
  match u.how % 5 { 0 => u.at as u32 * 256 + u.ch as u32, 1 => u.at as u32, 2 => 32760 + (u.at as u32 % 20), 3 => known[u.at as usize % known.len()], _ => known[u.at as usize % known.len()].wrapping_add([1u32, u32::MAX, 2][u.ch as usize % 3]) }
}
fn refused(u: &Unsupported, tag: u16, v: u32, what: &str) -> Result<Out, String> {
  let (smp, hits) = with_override(tag, v, || build(&u.spec));
  if hits == 0 && u.spec.kind == "raf" { return out("fixed depth", false, 0) }
  if hits == 0 { return Err(format!("writer bug: no {} entry", what)) }
  match decode(&smp.bytes) {
    Ok(_) => Err(format!("{}: a file stating the unknown {} {} was decoded instead of being refused", smp.label, what, v)),
    Err(e) => {
      if e.trim().is_empty() { return Err("empty error message".into()) }
      out(u.spec.kind.clone(), true, hash_bytes(&smp.bytes))
    }
  }
}
pub fn unknown_depth(u: &Unsupported) -> u32 {
  match u.how % 3 { 0 => u.at as u32 % 33, 1 => u.at as u32 * 256 + u.ch as u32, _ => [1, 2, 4, 9, 11, 13, 15, 18, 20, 24, 32, 64][u.at as usize % 12] }
}
fn check_depth(u: &Unsupported) -> Result<Out, String> {
  let v = unknown_depth(u);
  let mut u = u.clone();
  // a Nikon file is only known to be uncompressed if it says so
  if u.spec.kind.starts_with("nef") {
    u.spec.opt[0] &= !1;
    if cam_for(&u.spec).model == "NIKON D100" { return out("fixed depth", false, 0) }
  }
  let c = cam_for(&u.spec);
  if c.hint("double_width") || c.hint("jpeg32") { return out("fixed depth", false, 0) }
  let known: &[u32] = match &u.spec.kind[..3] { "dng" => &[8, 10, 12, 16], "raf" => &[12, 14, 16], _ => &[12, 14] };
  if known.contains(&v) { return out("a known depth", false, 0) }
  refused(&u, if u.spec.kind == "raf" { 0xF003 } else { 0x102 }, v, "bit depth")
}

/// JPEG streams of other kinds than the lossless ones in use
pub fn strange_of(u: &Unsupported) -> Strange {
  match u.how % 4 {
    0 if !u.spec.kind.starts_with("mos") => Strange::Predictor(if u.ch & 1 == 0 { [0, 2, 3, 4, 5, 6, 7][u.at as usize % 7] } else { let p = u.at; if p == 1 || p == 8 { 9 } else { p } }),
    1 => Strange::Precision(if u.ch & 1 == 0 { u.at % 12 } else { 17 + u.at % 200 }),
    2 => Strange::FrameType([0xc0, 0xc1, 0xc2, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcd, 0xce, 0xcf][u.at as usize % 12]),
    _ => Strange::Quantised,
  }
}
fn check_jpeg(u: &Unsupported) -> Result<Out, String> {
  let mut u = u.clone();
  if u.spec.kind.starts_with("mos") { u.spec.opt[1] |= 1 }
  let k = strange_of(&u);
  let plain = build(&u.spec).bytes;
  let smp = with_strange(k, || build(&u.spec));
  if smp.bytes == plain { return out("without lossless JPEG", false, 0) }
  match decode(&smp.bytes) {
    Ok(_) => Err(format!("{}: JPEG data with {:?} was decoded instead of being refused", smp.label, k)),
    Err(e) if e.trim().is_empty() => Err("empty error message".into()),
    Err(_) => out(u.spec.kind.clone(), true, hash_bytes(&smp.bytes)),
  }
}

/// Foveon containers are recognised but not supported, whatever the camera in them
fn check_foveon(u: &Unsupported) -> Result<Out, String> {
  let mut t = crate::tiffw::Tiff::new(&u.spec.lay);
  let root = t.ifd(id_entries(cam_for(&u.spec), u.spec.orient));
  let (exif, _) = t.build(root);
  let mut r = Rng::new(u.spec.lay.seed as u64);
  let le = |v: u32| v.to_le_bytes();
  let mut b = b"FOVb".to_vec();
  b.extend([0, 0, 2 + u.how % 3, 0].iter().rev());
  b.extend(r.bytes(u.spec.lay.pad as usize));
  let (w, h) = (u.spec.w, u.spec.h);
  let mut dirs = vec![];
  let mut secs: Vec<(u32, u32, Vec<u8>)> = vec![(2, 0x12, [b"\xff\xd8\xff\xe1\0\0Exif\0\0".to_vec(), exif].concat())];
  let fmt = [35u32, 6, 11, 30, 3, 18][u.ch as usize % 6];
  secs.push(([1u32, 3][u.at as usize % 2], fmt, r.bytes((w * h * 6) as usize)));
  if u.at & 2 != 0 { secs.swap(0, 1) }
  for (typ, format, data) in secs {
    let at = b.len() as u32;
    b.extend(b"SECi");
    for v in [0x0002_0000u32, typ, format, w, h, w * 6] { b.extend(le(v)) }
    b.extend(&data);
    dirs.push((at, b.len() as u32 - at));
  }
  let d = b.len() as u32;
  b.extend(b"SECd");
  b.extend(le(0x0002_0000));
  b.extend(le(dirs.len() as u32));
  for (o, l) in dirs { b.extend(le(o)); b.extend(le(l)); b.extend(b"IMA2") }
  b.extend(le(d));
  match decode(&b) {
    Ok(i) => Err(format!("a Foveon file was decoded as {} {} {}x{} instead of being refused", i.make, i.model, i.width, i.height)),
    Err(e) if e.trim().is_empty() => Err("empty error message".into()),
    Err(e) => out(e.split(&[' ', ':'][..]).take(4).collect::<Vec<_>>().join(" "), true, hash_bytes(&b)),
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd { Missing(u32), Directory, Empty, Noise { len: u32, seed: u32, head: u8 }, WrongSize { cam: u32, delta: i32, seed: u32 } }

fn odd_strat() -> BoxedStrategy<Odd> {
  prop_oneof![
    1 => any::<u32>().prop_map(Odd::Missing),
    1 => Just(Odd::Directory),
    1 => Just(Odd::Empty),
    20 => (0u32..600, any::<u32>(), any::<u8>()).prop_map(|(len, seed, head)| Odd::Noise { len, seed, head }),
    4 => (600u32..200_000, any::<u32>(), any::<u8>()).prop_map(|(len, seed, head)| Odd::Noise { len, seed, head }),
    1 => (any::<u32>(), prop_oneof![Just(-1), Just(1), -40i32..40], any::<u32>()).prop_map(|(cam, delta, seed)| Odd::WrongSize { cam, delta, seed }),
  ].boxed()
}

fn no_signature(b: &mut Vec<u8>) {
  // make sure no container signature is there by accident
  if b.len() > 0 && [b'I', b'M', b'F', 0, b'A'].contains(&b[0]) { b[0] = b'x' }
  if b.len() > 6 && b[6] == b'H' { b[6] = b'x' }
}

fn check_odd(o: &Odd) -> Result<Out, String> {
  let sizes: Vec<usize> = db::all().iter().map(|c| c.filesize).filter(|&f| f > 0).collect();
  let dir = scratch_dir();
  let (r, what, key) = match o {
    Odd::Missing(k) => (rawloader::decode(dir.join(format!("no-such-file-{}.raw", k)).to_str().unwrap()), "missing file", *k as u64),
    Odd::Directory => (rawloader::decode(dir.to_str().unwrap()), "directory", 1),
    Odd::Empty => (decode(&[]), "empty file", 2),
    Odd::Noise { len, seed, .. } => {
      let mut b = Rng::new(*seed as u64).bytes(*len as usize);
      no_signature(&mut b);
      (decode(&b), "unrecognised data", hash_bytes(&b))
    }
    Odd::WrongSize { cam, delta, seed } => {
      let n = (sizes[*cam as usize % sizes.len()] as i64 + *delta as i64) as usize;
      if sizes.contains(&n) { return out("became a known size", false, 0) }
      let mut b = Rng::new(*seed as u64).bytes(n);
      no_signature(&mut b);
      (decode(&b), "headerless data of no known size", hash_bytes(&b))
    }
  };
  match r {
    Ok(i) => Err(format!("{}: decoded as {} {} {}x{} instead of an error", what, i.make, i.model, i.width, i.height)),
    Err(e) if e.trim().is_empty() => Err(format!("{}: empty error message", what)),
    Err(_) => out(what, true, key),
  }
}

fn unsupported_strat(names: Vec<&'static str>) -> BoxedStrategy<Unsupported> {
  (spec_strat(names), any::<u8>(), any::<u8>(), any::<u8>())
    .prop_map(|(mut spec, how, at, ch)| { spec.w = spec.w.min(64); spec.h = spec.h.min(64); Unsupported { spec, how, at, ch } }).boxed()
}

fn rejection() -> Vec<Group> {
  let models: Vec<&'static str> = kinds().iter().filter(|k| !k.heavy && k.class != "dng" && !k.name.starts_with("dng") && k.name != "naked").map(|k| k.name).collect();
  let modes: Vec<&'static str> = models.iter().cloned().filter(|n| ["nef-uncompressed", "nef-lossy", "nef-lossless", "rw2-unpacked", "rw2-control", "rw2-split"].contains(n)).collect();
  let makes: Vec<&'static str> = models.iter().cloned().filter(|n| *n != "ari" && !n.starts_with("mos") && *n != "cr2-d2000").collect();
  let comps: Vec<&'static str> = kinds().iter().map(|k| k.name).filter(|n| n.starts_with("pef") || n.starts_with("srw") || n.starts_with("dng") || n.starts_with("mos") || *n == "nef-lossy" || *n == "nef-lossless" || *n == "arw1" || *n == "arw2" || n.starts_with("arw-1")).collect();
  let depths: Vec<&'static str> = kinds().iter().map(|k| k.name).filter(|n| ["srw-unpacked", "srw-packed", "nef-uncompressed", "raf"].contains(n) || n.starts_with("dng-") && !n.contains("tile") && !n.contains("strip")).collect();
  let jpegs: Vec<&'static str> = kinds().iter().filter(|k| !k.heavy && (k.class == "ljpeg" && !k.name.contains("sraw") && !k.name.starts_with("3fr") || k.name.starts_with("mos"))).map(|k| k.name).collect();
  vec![
    group_dyn("unknown-model", 150_000, 1_200_000, Arc::new(move || unsupported_strat(models.clone())), check_unknown_model),
    group_dyn("unknown-make", 150_000, 1_200_000, Arc::new(move || unsupported_strat(makes.clone())), check_unknown_make),
    group_dyn("unknown-mode", 20_000, 400_000, Arc::new(move || unsupported_strat(modes.clone())), check_unknown_mode),
    group_dyn("unknown-compression", 100_000, 1_600_000, Arc::new(move || unsupported_strat(comps.clone())), check_compression),
    group_dyn("unknown-depth", 20_000, 400_000, Arc::new(move || unsupported_strat(depths.clone())), check_depth),
    group_dyn("jpeg-variants", 30_000, 500_000, Arc::new(move || unsupported_strat(jpegs.clone())), check_jpeg),
    group_dyn("foveon", 10_000, 200_000, Arc::new(move || unsupported_strat(vec!["mef", "dng-16", "orf-unpacked"])), check_foveon),
    group("failing-source", 60_000, 400_000, super::determinism::source_strat, super::determinism::check_failing),
    group("unreadable", 12_000, 100_000, odd_strat, check_odd),
  ]
}

const DOM: &[&str] = &[
  "the reference encoders in /verif/harness/src/fmt are right about each format (they were cross-checked against the decoders, differing places were settled by reading the format documentation in the code's comments and the sibling decoders)",
  "scratch files are written to /dev/shm or the temporary directory",
];

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C01", threads: 0, both_builds: false, assumptions: DOM,
      rule: "a generated description (camera, size, sample values, options, container layout) is written as an uncompressed or bit-packed raw file of every supported kind; the decoded samples must be the ones written. Non-trivial: the image has more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|k| k.class == "packed", Parts { pixels: true, ..NONE }, 7000, 80_000); v.push(very_long("packed", Parts { pixels: true, ..NONE })); v } },
    Prop { id: "C02", threads: 0, both_builds: false, assumptions: DOM,
      rule: "as C01, for files that carry lossless JPEG data (1-4 components, random Huffman tables, slices, tiles, strips, sub-sampled colour). Non-trivial: more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|k| k.class == "ljpeg", Parts { pixels: true, ..NONE }, 12000, 100_000); v.push(very_long("ljpeg", Parts { pixels: true, ..NONE })); v } },
    Prop { id: "C03", threads: 0, both_builds: false, assumptions: DOM,
      rule: "as C01, for the vendors' own lossless compression schemes. Non-trivial: more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|k| k.class == "vendor", Parts { pixels: true, ..NONE }, 12000, 100_000); v.push(very_long("vendor", Parts { pixels: true, ..NONE })); v } },
    Prop { id: "C04", threads: 0, both_builds: false, assumptions: DOM,
      rule: "as C01, for encodings that go through a companding curve: each decoded sample must lie within the curve step of the coded value. Non-trivial: more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|k| k.class == "curve", Parts { pixels: true, ..NONE }, 16000, 160_000); v.push(very_long("curve", Parts { pixels: true, ..NONE })); v } },
    Prop { id: "C05", threads: 0, both_builds: false, assumptions: DOM,
      rule: "every camera, alias and mode of the database in every encoding it can appear in, written to a file and decoded; identification must match. Each pair counts once per content",
      groups: || {
        let p = Parts { ident: true, levels: true, ..NONE };
        let mut v = vec![every_camera("every-camera", p, 6)];
        v.extend(per_kind(|_| true, Parts { ident: true, ..NONE }, 500, 10_000));
        v
      } },
    Prop { id: "C06", threads: 0, both_builds: false, assumptions: DOM,
      rule: "generated white balance values written the way each format stores them; the reported coefficients must be those values. Non-trivial: more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|_| true, Parts { wb: true, ..NONE }, 2500, 40_000); v.push(every_camera("every-camera", Parts { wb: true, ..NONE }, 4)); v } },
    Prop { id: "C07", threads: 0, both_builds: false, assumptions: DOM,
      rule: "black and white levels (fixed, from the file, or averaged over masked areas), crops, colour matrix and filter pattern of every camera and encoding. Non-trivial: more than one sample value; distinct by file content",
      groups: || { let mut v = per_kind(|_| true, Parts { levels: true, ..NONE }, 2500, 40_000); v.push(every_camera("every-camera", Parts { levels: true, ..NONE }, 4)); v.push(large_masks()); v } },
    Prop { id: "C08", threads: 0, both_builds: false, assumptions: DOM,
      rule: "orientation entries 0-19 or none, in every format that carries one. Non-trivial: more than one sample value; distinct by file content",
      groups: || per_kind(|_| true, Parts { orient: true, ..NONE }, 2500, 40_000) },
    Prop { id: "C09", threads: 0, both_builds: false, assumptions: DOM,
      rule: "one generated content written in the plain layout and in 1-3 other container layouts (byte order, placement, padding, entry order and types, unknown entries, trailing data); every one must decode to the content. Distinct by the contents of all its files",
      groups: || {
        let mut v = vec![];
        for k in kinds() {
          if k.heavy { continue }
          let name: &'static str = k.name;
          v.push(group_dyn(name, 4000, 60_000, Arc::new(move || relayout_strat(vec![name])), check_relayout));
        }
        v
      } },
    Prop { id: "C21", threads: 0, both_builds: false, assumptions: DOM,
      rule: "well-formed files whose model, maker or compression was changed to one that is not supported, unreadable paths, and data without any known signature or size: all must be refused with a message. Non-trivial: the changed name or value is not a supported one; distinct by content",
      groups: rejection },
  ]
}
