//! Reference writers: for each raw format (and each encoding variant inside it) a function
//! from a generated description to (file bytes, everything a decode of it must report).
use crate::db::{self, Cam};
use crate::tiffw::*;
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Just, Strategy};
use proptest::prop_oneof;
use serde::{Deserialize, Serialize};

pub mod packed_ref;
pub mod misc;
pub mod sony;
pub mod olympus;
pub mod consts;
pub mod canon;
pub mod panafuji;
pub mod nikon;
pub mod medium;
pub mod pentax;
pub mod samsung;
pub mod dng;

/// The generated description of one file. All fields are plain integers so that it shrinks
/// and replays; each writer maps them onto what its format can represent.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
  pub kind: String,
  pub cam: u32,
  pub w: u32,
  pub h: u32,
  pub pix: Pix,
  pub orient: u16,
  pub wb: [u16; 4],
  pub opt: [u16; 6],
  pub lay: Layout,
}

#[derive(Clone, Debug)]
pub enum Data {
  Exact(Vec<u16>),
  /// inclusive bounds per sample
  Range(Vec<u16>, Vec<u16>),
}
impl Data {
  pub fn len(&self) -> usize { match self { Data::Exact(d) => d.len(), Data::Range(l, _) => l.len() } }
}

#[derive(Clone, Debug)]
pub enum Black {
  Fixed([u16; 4]),
  /// anything between the least and the greatest level stated for a colour
  Between([(u16, u16); 4]),
  /// averages of the masked rows and columns, by filter colour
  Areas((usize, usize), (usize, usize)),
}

#[derive(Clone, Debug)]
pub struct Expect {
  pub make: String,
  pub model: String,
  pub clean_make: String,
  pub clean_model: String,
  pub width: usize,
  pub height: usize,
  pub cpp: usize,
  pub data: Data,
  pub wb: [f32; 4],
  pub white: [u16; 4],
  pub black: Black,
  pub matrix: [[f32; 3]; 4],
  pub pattern: String,
  pub crops: [usize; 4],
  pub orient: u16,
}

pub struct Sample {
  pub bytes: Vec<u8>,
  pub exp: Expect,
  /// encoding variant actually produced
  pub label: String,
}

pub const NAN: f32 = std::f32::NAN;

impl Expect {
  pub fn from_cam(c: &Cam, width: usize, height: usize, wb: [f32; 4], data: Data, orient: u16) -> Expect {
    let mut m = [[0f32; 3]; 4];
    for (i, v) in c.matrix.iter().enumerate() { m[i / 3][i % 3] = *v as f32 }
    Expect {
      make: c.make.clone(), model: c.model.clone(), clean_make: c.clean_make.clone(), clean_model: c.clean_model.clone(),
      width, height, cpp: 1, data, wb,
      white: [c.white as u16; 4],
      black: if c.areah.1 != 0 || c.areav.1 != 0 { Black::Areas(c.areah, c.areav) } else { Black::Fixed([c.black as u16; 4]) },
      matrix: m, pattern: c.pattern.clone(), crops: c.crops,
      orient: if orient >= 1 && orient <= 8 { orient } else { 0 },
    }
  }
}

pub fn orient_code(o: rawloader::decoders::Orientation) -> u16 {
  use rawloader::decoders::Orientation::*;
  match o { Normal => 1, HorizontalFlip => 2, Rotate180 => 3, VerticalFlip => 4, Transpose => 5, Rotate90 => 6, Transverse => 7, Rotate270 => 8, Unknown => 0 }
}

/// What parts of a decode result to judge.
#[derive(Clone, Copy)]
pub struct Parts { pub pixels: bool, pub ident: bool, pub wb: bool, pub levels: bool, pub orient: bool }
pub const ALL: Parts = Parts { pixels: true, ident: true, wb: true, levels: true, orient: true };
pub const NONE: Parts = Parts { pixels: false, ident: false, wb: false, levels: false, orient: false };

/// exact truncated averages over masked areas
pub fn area_black(pattern: &str, h: (usize, usize), v: (usize, usize), width: usize, height: usize, data: &[u16]) -> [u16; 4] {
  let mut s = [0u64; 4];
  let mut n = [0u64; 4];
  for row in h.0..h.0 + h.1 { for col in 0..width { let c = db::color_of(pattern, row, col); s[c] += data[row * width + col] as u64; n[c] += 1 } }
  for row in 0..height { for col in v.0..v.0 + v.1 { let c = db::color_of(pattern, row, col); s[c] += data[row * width + col] as u64; n[c] += 1 } }
  let mut o = [0u16; 4];
  for c in 0..4 { if n[c] > 0 { o[c] = (s[c] / n[c]) as u16 } }
  o
}

pub fn wb_eq(a: &[f32; 4], b: &[f32; 4]) -> bool {
  (0..4).all(|i| (a[i].is_nan() && b[i].is_nan()) || a[i] == b[i] || (a[i] - b[i]).abs() <= 1e-5 * b[i].abs())
}

pub fn compare(img: &rawloader::RawImage, e: &Expect, p: Parts) -> Result<(), String> {
  if (img.width, img.height, img.cpp) != (e.width, e.height, e.cpp) {
    return Err(format!("dimensions {}x{}x{} expected {}x{}x{}", img.width, img.height, img.cpp, e.width, e.height, e.cpp));
  }
  if img.data.len() != img.width * img.height * img.cpp {
    return Err(format!("data has {} samples for {}x{}x{}", img.data.len(), img.width, img.height, img.cpp));
  }
  if p.pixels {
    let row = e.width * e.cpp;
    match &e.data {
      Data::Exact(d) => {
        assert_eq!(d.len(), img.data.len(), "writer bug: expected data length");
        if let Some(k) = (0..d.len()).find(|&k| d[k] != img.data[k]) {
          let bad = (0..d.len()).filter(|&k| d[k] != img.data[k]).count();
          return Err(format!("sample row {} col {} decoded as {} but {} was written ({} of {} samples differ)", k / row, k % row, img.data[k], d[k], bad, d.len()));
        }
      }
      Data::Range(lo, hi) => {
        assert_eq!(lo.len(), img.data.len(), "writer bug: expected data length");
        if let Some(k) = (0..lo.len()).find(|&k| img.data[k] < lo[k] || img.data[k] > hi[k]) {
          return Err(format!("sample row {} col {} decoded as {} outside {}..={}", k / row, k % row, img.data[k], lo[k], hi[k]));
        }
      }
    }
  }
  if p.ident {
    if (&img.make, &img.model, &img.clean_make, &img.clean_model) != (&e.make, &e.model, &e.clean_make, &e.clean_model) {
      return Err(format!("identified as {:?} expected {:?}", (&img.make, &img.model, &img.clean_make, &img.clean_model), (&e.make, &e.model, &e.clean_make, &e.clean_model)));
    }
  }
  if p.wb && !wb_eq(&img.wb_coeffs, &e.wb) {
    return Err(format!("white balance {:?} expected {:?}", img.wb_coeffs, e.wb));
  }
  if p.levels {
    let black = match &e.black {
      Black::Fixed(b) => [(b[0], b[0]), (b[1], b[1]), (b[2], b[2]), (b[3], b[3])],
      Black::Between(b) => *b,
      Black::Areas(h, v) => { let b = area_black(&e.pattern, *h, *v, img.width, img.height, &img.data); [(b[0], b[0]), (b[1], b[1]), (b[2], b[2]), (b[3], b[3])] }
    };
    if (0..4).any(|k| img.blacklevels[k] < black[k].0 || img.blacklevels[k] > black[k].1) { return Err(format!("black levels {:?} expected {:?}", img.blacklevels, black)) }
    // a fourth colour has no level of its own in images of three
    if img.whitelevels[..3] != e.white[..3] || !(img.whitelevels[3] == e.white[3] || e.cpp == 3 && e.white[..3].contains(&img.whitelevels[3])) { return Err(format!("white levels {:?} expected {:?}", img.whitelevels, e.white)) }
    if img.crops != e.crops { return Err(format!("crops {:?} expected {:?}", img.crops, e.crops)) }
    for i in 0..4 { for j in 0..3 {
      let (a, b) = (img.xyz_to_cam[i][j], e.matrix[i][j]);
      if !(a == b || (a - b).abs() <= 1e-5 * b.abs()) { return Err(format!("colour matrix {:?} expected {:?}", img.xyz_to_cam, e.matrix)) }
    } }
    let valid = !e.pattern.is_empty();
    if img.is_monochrome() != (e.cpp == 1 && !valid) { return Err(format!("is_monochrome {} for {} samples per pixel and pattern {:?}", img.is_monochrome(), e.cpp, e.pattern)) }
    if img.cfa.is_valid() != valid { return Err(format!("cfa valid {} expected pattern {:?}", img.cfa.is_valid(), e.pattern)) }
    if valid {
      for r in 0..24 { for c in 0..24 {
        if img.cfa.color_at(r, c) != db::color_of(&e.pattern, r, c) { return Err(format!("cfa {:?} at {},{} is {} expected pattern {}", img.cfa, r, c, img.cfa.color_at(r, c), e.pattern)) }
      } }
    }
  }
  if p.orient && orient_code(img.orientation) != e.orient {
    return Err(format!("orientation {:?} expected code {}", img.orientation, e.orient));
  }
  Ok(())
}

pub struct Kind {
  pub name: &'static str,
  /// "packed", "ljpeg", "vendor", "curve"
  pub class: &'static str,
  pub cams: fn(&Cam) -> bool,
  pub build: fn(&Spec, &Cam) -> Sample,
  /// relative weight / cost class: big ones are generated rarely
  pub heavy: bool,
}

pub fn kinds() -> Vec<&'static Kind> {
  let mut v: Vec<&'static Kind> = vec![];
  v.extend(misc::KINDS.iter());
  v.extend(sony::KINDS.iter());
  v.extend(olympus::KINDS.iter());
  v.extend(canon::KINDS.iter());
  v.extend(panafuji::KINDS.iter());
  v.extend(nikon::KINDS.iter());
  v.extend(medium::KINDS.iter());
  v.extend(pentax::KINDS.iter());
  v.extend(samsung::KINDS.iter());
  v.extend(dng::KINDS.iter());
  v
}

pub fn kind(name: &str) -> &'static Kind {
  kinds().into_iter().find(|k| k.name == name).unwrap_or_else(|| panic!("no kind {}", name))
}

/// cameras of the database that a kind covers
pub fn cams_of(k: &Kind) -> Vec<&'static Cam> {
  use std::collections::HashMap;
  use std::sync::{Mutex, OnceLock};
  static C: OnceLock<Mutex<HashMap<&'static str, Vec<&'static Cam>>>> = OnceLock::new();
  let mut m = C.get_or_init(Default::default).lock().unwrap();
  if let Some(v) = m.get(k.name) { return v.clone(); }
  let v: Vec<&'static Cam> = db::all().iter().filter(|c| (k.cams)(c)).collect();
  let name: &'static str = kinds().into_iter().find(|x| x.name == k.name).unwrap().name;
  m.insert(name, v.clone());
  v
}

pub fn cam_for(s: &Spec) -> &'static Cam {
  let v = cams_of(kind(&s.kind));
  assert!(!v.is_empty(), "no camera for {}", s.kind);
  v[s.cam as usize % v.len()]
}

pub fn build(s: &Spec) -> Sample {
  (kind(&s.kind).build)(s, cam_for(s))
}

/// smallest image dimensions that contain the masked areas of the camera
pub fn min_dims(c: &Cam) -> (usize, usize) {
  (if c.areav.1 > 0 { c.areav.0 + c.areav.1 } else { 0 }, if c.areah.1 > 0 { c.areah.0 + c.areah.1 } else { 0 })
}

/// width/height from the spec: at least the masked areas, rounded up to the given units
pub fn dims(s: &Spec, c: &Cam, wu: usize, hu: usize) -> (usize, usize) {
  let (mw, mh) = min_dims(c);
  let w = (s.w as usize).max(1).max(mw);
  let h = (s.h as usize).max(1).max(mh);
  (((w + wu - 1) / wu) * wu, ((h + hu - 1) / hu) * hu)
}

pub fn layout_strat() -> BoxedStrategy<Layout> {
  (any::<bool>(), 0u32..1_000_000, 0u8..40, 0u8..6, any::<bool>(), any::<bool>(), 0u8..40)
    .prop_map(|(be, seed, pad, unknown, long, unsorted, tail)| Layout { be, seed, pad, unknown, long, unsorted, tail, chain: 0, far: 0 })
    .boxed()
}

fn size_strat() -> BoxedStrategy<(u32, u32)> {
  prop_oneof![
    60 => (1u32..40, 1u32..24),
    30 => (1u32..130, 1u32..40),
    10 => (1u32..700, 1u32..12),
    10 => (1u32..24, 1u32..300),
    2 => (700u32..9000, 1u32..6),
    2 => (1u32..10, 300u32..6000),
    1 => (500u32..1600, 300u32..900),
  ].boxed()
}

fn coeff() -> BoxedStrategy<u16> {
  prop_oneof![6 => 1u16..5000, 2 => 1u16..=65535, 1 => proptest::sample::select(vec![1u16, 2, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535])].boxed()
}

pub fn spec_strat(names: Vec<&'static str>) -> BoxedStrategy<Spec> {
  (proptest::sample::select(names), any::<u32>(), size_strat(), 0u8..8, any::<u32>(),
   prop_oneof![8 => 1u16..=8, 2 => Just(0u16), 1 => 9u16..20, 1 => 9u16..1000, 1 => (1u16..4, 1u16..9).prop_map(|(a, b)| a * 256 + b), 1 => 1000u16..2000],
   [coeff(), coeff(), coeff(), coeff()],
   [any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()],
   layout_strat())
    .prop_map(|(kind, cam, (w, h), style, seed, orient, wb, opt, lay)| Spec {
      kind: kind.to_string(), cam, w, h, pix: Pix { style, seed }, orient, wb, opt, lay,
    }).boxed()
}

/// Tags that identify the camera; orient 0 = no orientation entry, from 1000 one beyond 16 bits.
pub fn id_entries(c: &Cam, orient: u16) -> Vec<(u16, V)> {
  let mut v = vec![(0x010F, V::Str(c.make.clone())), (0x0110, V::Str(c.model.clone()))];
  if orient != 0 { v.push((0x0112, V::Num(vec![if orient < 1000 { orient as u32 } else { (orient as u32) << 16 | orient as u32 % 9 }]))) }
  v
}

/// Bounds of a companded sample: the decoded value must stay inside the curve step around
/// the curve entry of the coded symbol (a quarter of the distance between the neighbouring
/// entries to either side, plus rounding).
pub fn curve_bounds(curve: &[u16], sym: usize) -> (u16, u16) {
  let c = curve[sym] as i64;
  let lo = if sym > 0 { curve[sym - 1] as i64 } else { c };
  let hi = if sym + 1 < curve.len() { curve[sym + 1] as i64 } else { c };
  let d = hi - lo;
  let l = (c - (d + 2) / 4).max(0);
  (l as u16, (l + d / 2 + 1).max(c + d / 4 + 1).min(65535) as u16)
}
