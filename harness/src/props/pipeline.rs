//! Processing a raw image into an RGB one.
use super::Prop;
use crate::engine::*;
use crate::pipe::*;
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Just, Strategy};
use proptest::prop_oneof;
use rawloader::{RawImage, RGBImage, CFA};
use serde::{Deserialize, Serialize};

fn key(v: &impl Serialize) -> u64 { hash_bytes(serde_json::to_string(v).unwrap().as_bytes()) }
fn label(s: &ImgSpec, i: &Img) -> String {
  let k = match s.kind { 0 => "mono".to_string(), 1 => "rgb".to_string(), _ => format!("cfa{}", i.pattern.len()) };
  format!("{}{}", k, if s.crops.iter().any(|&c| c > 0) { "-cropped" } else { "" })
}
pub fn visible(r: &RawImage) -> (usize, usize) { (r.width - r.crops[1] - r.crops[3], r.height - r.crops[0] - r.crops[2]) }
fn varied(r: &RawImage) -> bool { r.data.iter().any(|v| *v != r.data[0]) }

// ---- size ----------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sized { pub img: ImgSpec, pub mw: u64, pub mh: u64 }

/// limits nobody can reach, up to the largest there is
fn huge(n: u16) -> u64 {
  let base = [u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, 1 << 31, 1 << 24, 1 << 16, 1 << 53, 1 << 62][n as usize % 10];
  match n / 10 % 3 { 0 => base, 1 => base - 1, _ => base.saturating_add(1 + n as u64 / 30) }
}

pub fn max_strat(maxdim: u32) -> BoxedStrategy<Sized> {
  (img_strat(maxdim), 0u8..15, any::<u16>(), any::<u16>(), 0u32..maxdim * 2, 0u32..maxdim * 2).prop_map(|(img, how, a, b, x, y)| {
    let (w, h) = if transposes(img.orient) { (img.h, img.w) } else { (img.w, img.h) };
    let (w, h, x, y) = (w as u64, h as u64, x as u64, y as u64);
    let (mw, mh) = match how {
      0 => (0, 0),
      1 => (w, h),
      2 => (w, 1 + y),
      3 => (1 + x, h),
      4 => (w + 1, (h.max(2)) - 1),
      5 => ((w.max(2)) - 1, h + 1),
      // exact and nearly exact ratios
      6 => { let k = 1 + a as u64 % 6; ((w / k).max(1), (h / k).max(1)) }
      7 => { let k = 2 + a as u64 % 4; ((w / k).max(1), 100_000) }
      8 => { let k = 2 + b as u64 % 4; (100_000, (h / k).max(1)) }
      9 => (1 + a as u64 % 3, 1 + b as u64 % 3),
      10 => if a & 1 == 0 { (x, 0) } else { (0, y) },
      11 => match a % 4 { 0 => (huge(b), 0), 1 => (0, huge(b)), _ => (huge(b), huge(a)) },
      12 => if a & 1 == 0 { (huge(b), 1 + y) } else { (1 + x, huge(b)) },
      _ => (1 + x, 1 + y),
    };
    Sized { img, mw, mh }
  }).boxed()
}

fn check_size(s: &Sized) -> Result<Out, String> {
  let i = make(&s.img);
  let (w, h) = visible(&i.raw);
  let (w, h) = if transposes(i.oshape) { (h, w) } else { (w, h) };
  let (mw, mh) = (s.mw as usize, s.mh as usize);
  let rgb = i.raw.to_rgb(mw, mh)?;
  let lin = i.raw.to_linear_rgb(mw, mh)?;
  let b8 = i.raw.to_srgb(mw, mh)?;
  let got = (rgb.width, rgb.height);
  if (lin.width, lin.height) != got || (b8.width, b8.height) != got { return Err(format!("the three outputs have sizes {:?} {:?} {:?}", got, (lin.width, lin.height), (b8.width, b8.height))) }
  for (n, l) in [("to_rgb", rgb.data.len()), ("to_linear_rgb", lin.data.len()), ("to_srgb", b8.data.len())] {
    if l != got.0 * got.1 * 3 { return Err(format!("{}: {} values for {}x{}", n, l, got.0, got.1)) }
  }
  let fits = mw == 0 || mh == 0 || (w <= mw && h <= mh);
  if fits {
    if got != (w, h) { return Err(format!("{}x{} should stay as it is with limits {}x{} but became {:?}", w, h, mw, mh, got)) }
  } else {
    if got.0 > mw || got.1 > mh { return Err(format!("{}x{} with limits {}x{} became {:?}, outside the limits", w, h, mw, mh, got)) }
    if got.0 != mw && got.1 != mh { return Err(format!("{}x{} with limits {}x{} became {:?}, touching neither limit", w, h, mw, mh, got)) }
    if got.0 == 0 || got.1 == 0 { return Err(format!("{}x{} with limits {}x{} became empty", w, h, mw, mh)) }
    // the ratio, up to rounding to whole pixels
    let scale = (w as f64 / mw as f64).max(h as f64 / mh as f64);
    let (ew, eh) = ((w as f64 / scale).max(1.0), (h as f64 / scale).max(1.0));
    if (got.0 as f64 - ew).abs() > 1.0 + 1e-3 || (got.1 as f64 - eh).abs() > 1.0 + 1e-3 { return Err(format!("{}x{} with limits {}x{} became {:?} instead of about {:.2}x{:.2}", w, h, mw, mh, got, ew, eh)) }
  }
  out(format!("{}{}", if fits { "fits" } else { "scaled" }, if transposes(i.oshape) { "-transposed" } else { "" }), !fits || w != h, key(s))
}

// ---- orientation ---------------------------------------------------------------------

fn check_orient(s: &Sized) -> Result<Out, String> {
  let i = make(&s.img);
  let (mw, mh) = (s.mw as usize, s.mh as usize);
  let (pw, ph) = if transposes(i.oshape) { (mh, mw) } else { (mw, mh) };
  let mut plain = i.raw.clone();
  plain.orientation = ORIENTS[1];
  let same = |n: &str, a: (usize, usize, &[u32]), b: (usize, usize, &[u32])| -> Result<(), String> {
    // a: oriented, b: plain
    let (w, h) = (b.0, b.1);
    let (ow, oh) = if transposes(i.oshape) { (h, w) } else { (w, h) };
    if (a.0, a.1) != (ow, oh) { return Err(format!("{} with orientation {}: {}x{} from {}x{}", n, i.oshape, a.0, a.1, w, h)) }
    for row in 0..oh { for col in 0..ow {
      let (r, c) = source(i.oshape, row, col, w, h);
      let (x, y) = ((row * ow + col) * 3, (r * w + c) * 3);
      if a.2[x..x + 3] != b.2[y..y + 3] { return Err(format!("{} with orientation {} ({}x{}): pixel row {} col {} is not the unrotated pixel row {} col {}", n, i.oshape, w, h, row, col, r, c)) }
    } }
    Ok(())
  };
  let bits = |v: &RGBImage| v.data.iter().map(|f| f.to_bits()).collect::<Vec<u32>>();
  let (a, b) = (i.raw.to_rgb(mw, mh)?, plain.to_rgb(pw, ph)?);
  same("to_rgb", (a.width, a.height, &bits(&a)), (b.width, b.height, &bits(&b)))?;
  let (a, b) = (i.raw.to_linear_rgb(mw, mh)?, plain.to_linear_rgb(pw, ph)?);
  same("to_linear_rgb", (a.width, a.height, &bits(&a)), (b.width, b.height, &bits(&b)))?;
  let (a, b) = (i.raw.to_srgb(mw, mh)?, plain.to_srgb(pw, ph)?);
  let wide = |v: &[u8]| v.iter().map(|x| *x as u32).collect::<Vec<u32>>();
  same("to_srgb", (a.width, a.height, &wide(&a.data)), (b.width, b.height, &wide(&b.data)))?;
  let nt = i.oshape > 1 && (b.width > 1 || b.height > 1) && b.data.iter().any(|v| *v != b.data[0]);
  out(format!("orientation {}", i.oshape), nt, key(s))
}

// ---- reference -----------------------------------------------------------------------

/// Compares a linear output (plain orientation) with the reference.
fn judge(name: &str, got: &RGBImage, want: &[Option<[f64; 3]>], slack: f64) -> Result<usize, String> {
  judge_with(name, got, want, slack, &[])
}
fn four_colours(i: &Img) -> bool { i.pattern.bytes().any(|c| c == b'E' || c == b'Y') }
fn judge_with(name: &str, got: &RGBImage, want: &[Option<[f64; 3]>], slack: f64, extra: &[f64]) -> Result<usize, String> {
  let mut n = 0;
  if got.width * got.height != want.len() { return Err(format!("{}: {}x{} pixels, reference has {}", name, got.width, got.height, want.len())) }
  for (k, w) in want.iter().enumerate() {
    if let Some(w) = w {
      n += 1;
      for c in 0..3 {
        let g = got.data[k * 3 + c] as f64;
        let tol = slack * (1.0 + w[0].abs().max(w[1].abs()).max(w[2].abs())) + extra.get(k).cloned().unwrap_or(0.0);
        if !((g - w[c]).abs() <= tol) { return Err(format!("{}: pixel row {} col {} channel {} is {:.6}, the reference gives {:.6}", name, k / got.width, k % got.width, c, g, w[c])) }
      }
    }
  }
  Ok(n)
}

const SLACK: f64 = 2e-3;

pub fn plain(s: &ImgSpec) -> ImgSpec { let mut p = s.clone(); p.orient = if s.orient == 0 { 0 } else { 1 }; p }

fn check_full(s: &Sized) -> Result<Out, String> {
  let p = plain(&s.img);
  let i = make(&p);
  let (w, h) = visible(&i.raw);
  // any limits that do not ask for scaling
  let (mw, mh) = match s.mw % 3 { 0 => (0, 0), 1 => (w, h), _ => (w.saturating_add(s.mw as usize), h.saturating_add(s.mh as usize)) };
  let lin = i.raw.to_linear_rgb(mw, mh)?;
  let (_, _, d) = demosaic(&i);
  let n = judge("to_linear_rgb", &lin, &develop(&i.raw, s.img.kind == 0, &d), SLACK)?;
  out(label(&p, &i), varied(&i.raw) && n > 0, key(&p))
}

/// limits that ask for scaling
pub fn scaled_limits(s: &Sized, w: usize, h: usize) -> (usize, usize) {
  let (mut mw, mut mh) = (s.mw as usize, s.mh as usize);
  if transposes(s.img.orient) { std::mem::swap(&mut mw, &mut mh) }
  if mw == 0 || mh == 0 || (mw >= w && mh >= h) { mw = (w / 2).max(1); mh = (h / 2).max(1); }
  (mw, mh)
}
fn check_scaled(s: &Sized) -> Result<Out, String> {
  let p = plain(&s.img);
  let i = make(&p);
  let (w, h) = visible(&i.raw);
  let (mw, mh) = scaled_limits(s, w, h);
  if mw >= w && mh >= h { return out("too small to scale", false, 0) }
  let lin = i.raw.to_linear_rgb(mw, mh)?;
  let (nw, nh) = (lin.width, lin.height);
  let scale = (w as f64 / mw as f64).max(h as f64 / mh as f64);
  let min = match i.pattern.len() { 36 => 3.0, 144 => 12.0, _ => 2.0 };
  let mosaic = !i.pattern.is_empty() && scale >= min;
  let d = if mosaic { shrink_mosaic(&i, nw, nh) } else { let (_, _, d) = demosaic(&i); shrink(w, h, &d, nw, nh) };
  let mono = s.img.kind == 0;
  let want = develop(&i.raw, mono, &d);
  // Positions are 32 bit floats, so the weights of the outermost samples are only exact to
  // about the size of the image times 2^-23: allow what such an error does to each pixel.
  let spread = *i.raw.data.iter().max().unwrap() as f64 - *i.raw.data.iter().min().unwrap() as f64;
  let delta = spread * (4.0 * w.max(h) as f64 * (2f64).powi(-23)) + 65536.0 * (2f64).powi(-22);
  let mut extra = vec![0.0f64; want.len()];
  for c in 0..if four_colours(&i) { 4 } else { 3 } {
    for sign in [-1.0, 1.0] {
      let moved: Vec<[f64; 4]> = d.iter().map(|p| { let mut q = *p; q[c] += sign * delta; q }).collect();
      for (k, m) in develop(&i.raw, mono, &moved).iter().enumerate() {
        match (&want[k], m) {
          (Some(a), Some(b)) => extra[k] += (0..3).map(|j| (a[j] - b[j]).abs()).fold(0.0, f64::max),
          (Some(_), None) => extra[k] = f64::INFINITY,
          _ => {}
        }
      }
    }
  }
  let n = judge_with(&format!("to_linear_rgb {}x{} to {}x{}", w, h, nw, nh), &lin, &want, SLACK, &extra)?;
  out(format!("{}-{}", label(&p, &i), if mosaic { "averaged" } else { "demosaiced" }), varied(&i.raw) && n > 0, key(s))
}

// ---- crops ---------------------------------------------------------------------------

fn check_crop(s: &Sized) -> Result<Out, String> {
  let mut p = s.img.clone();
  if p.crops == [0; 4] { p.crops = [1, 2, 3, 5] }
  let i = make(&p);
  let (w, h) = visible(&i.raw);
  let (mw, mh) = (s.mw as usize, s.mh as usize);
  let r = &i.raw;
  // the visible part on its own
  let mut cut = r.clone();
  cut.data = Vec::with_capacity(w * h * r.cpp);
  for y in 0..h { let at = ((y + r.crops[0]) * r.width + r.crops[3]) * r.cpp; cut.data.extend(&r.data[at..at + w * r.cpp]) }
  cut.width = w; cut.height = h; cut.crops = [0; 4];
  cut.cfa = CFA::new(&shift_pattern(&i.pattern, r.crops[3], r.crops[0]));
  // the same with everything outside it changed
  let mut other = r.clone();
  for y in 0..r.height { for x in 0..r.width * r.cpp {
    let inside = y >= r.crops[0] && y < r.crops[0] + h && x >= r.crops[3] * r.cpp && x < (r.crops[3] + w) * r.cpp;
    if !inside { let d = &mut other.data[y * r.width * r.cpp + x]; *d = d.wrapping_mul(31).wrapping_add(12345) }
  } }
  let a = r.to_linear_rgb(mw, mh)?;
  for (n, b) in [("cutting the borders off first", cut.to_linear_rgb(mw, mh)?), ("changing the samples outside the crop", other.to_linear_rgb(mw, mh)?)] {
    if (a.width, a.height) != (b.width, b.height) { return Err(format!("{} changes the size from {}x{} to {}x{}", n, a.width, a.height, b.width, b.height)) }
    if let Some(k) = (0..a.data.len()).find(|&k| a.data[k].to_bits() != b.data[k].to_bits()) {
      return Err(format!("{} changes pixel row {} col {} from {} to {}", n, k / 3 / a.width, k / 3 % a.width, a.data[k], b.data[k]));
    }
  }
  // the pattern of the visible part
  let cc = r.cropped_cfa();
  if cc.is_valid() == i.pattern.is_empty() { return Err("cropped_cfa validity".into()) }
  if !i.pattern.is_empty() { for y in 0..h.min(30) { for x in 0..w.min(30) {
    let e = crate::db::color_of(&i.pattern, y + r.crops[0], x + r.crops[3]);
    if cc.color_at(y, x) != e { return Err(format!("cropped_cfa at {},{} is {} expected {}", y, x, cc.color_at(y, x), e)) }
  } } }
  out(label(&p, &i), varied(r), key(s))
}

// ---- relations between outputs and invariances ---------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rel { s: Sized, pow: i8, mul: u16 }
fn rel_strat() -> BoxedStrategy<Rel> {
  (max_strat(40), -6i8..6, 1u16..5000).prop_map(|(s, pow, mul)| Rel { s, pow, mul }).boxed()
}

fn check_outputs(r: &Rel) -> Result<Out, String> {
  let i = make(&r.s.img);
  let (mw, mh) = (r.s.mw as usize, r.s.mh as usize);
  let lin = i.raw.to_linear_rgb(mw, mh)?;
  let rgb = i.raw.to_rgb(mw, mh)?;
  let b8 = i.raw.to_srgb(mw, mh)?;
  if lin.data.len() != rgb.data.len() || b8.data.len() != rgb.data.len() { return Err("outputs differ in size".into()) }
  for k in 0..rgb.data.len() {
    let (l, g, b) = (lin.data[k], rgb.data[k], b8.data[k]);
    if !(g >= 0.0 && g <= 1.0) { return Err(format!("value {} of to_rgb is {}, outside 0 to 1", k, g)) }
    // the curve is tabulated in 65536 steps: at most one step of the linear value
    let (lo, hi) = (gamma(l as f64 - 1.6e-5) - 1e-5, gamma(l as f64 + 1e-7) + 1e-5);
    if !((g as f64) >= lo && (g as f64) <= hi) { return Err(format!("value {}: linear {} became {}, expected {}", k, l, g, gamma(l as f64))) }
    let e = (g as f64 * 255.0).floor();
    if !((b as f64 - e).abs() < 0.5 || ((g as f64 * 255.0 - (g as f64 * 255.0).round()).abs() < 1e-4 && (b as f64 - g as f64 * 255.0).abs() < 1.01)) { return Err(format!("value {}: {} became {} in eight bits", k, g, b)) }
  }
  out(label(&r.s.img, &i), lin.data.iter().any(|v| *v > 0.02 && *v < 1.0), key(r))
}

/// scaling all white balance coefficients does not matter
fn check_wbscale(r: &Rel) -> Result<Out, String> {
  let i = make(&r.s.img);
  let (mw, mh) = (r.s.mw as usize, r.s.mh as usize);
  let a = i.raw.to_linear_rgb(mw, mh)?;
  // a power of two is exact; another factor is up to rounding
  let f = (2f32).powi(r.pow as i32);
  let mut b = i.raw.clone();
  for k in 0..4 { b.wb_coeffs[k] *= f }
  let b = b.to_linear_rgb(mw, mh)?;
  if let Some(k) = (0..a.data.len()).find(|&k| a.data[k].to_bits() != b.data[k].to_bits()) { return Err(format!("multiplying the white balance by {} changes value {} from {} to {}", f, k, a.data[k], b.data[k])) }
  let f = r.mul as f32 / 777.0;
  let mut b = i.raw.clone();
  for k in 0..4 { b.wb_coeffs[k] *= f }
  let b = b.to_linear_rgb(mw, mh)?;
  if let Some(k) = (0..a.data.len()).find(|&k| (a.data[k] - b.data[k]).abs() > 1e-3 * (1.0 + a.data[k].abs())) { return Err(format!("multiplying the white balance by {} changes value {} from {} to {}", f, k, a.data[k], b.data[k])) }
  out(label(&r.s.img, &i), varied(&i.raw), key(r))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Neutral { img: ImgSpec, levels: Vec<u16>, mw: u32, mh: u32 }
fn neutral_strat() -> BoxedStrategy<Neutral> {
  (img_strat(24), proptest::collection::vec(any::<u16>(), 1..6), 0u32..30, 0u32..30)
    .prop_map(|(mut img, levels, mw, mh)| { img.w = img.w.max(4).min(60); img.h = img.h.max(4).min(60); Neutral { img, levels, mw, mh } }).boxed()
}

/// A uniform grey subject: samples that are equal after levels and white balance. The output
/// is grey, black is 0, white is 1, and more light is never darker.
fn check_neutral(n: &Neutral) -> Result<Out, String> {
  let mut p = n.img.clone();
  // patterns in which every 2x2 block holds every colour (magenta and yellow are not colours of
  // their own here)
  if p.kind >= 2 { p.pat = [0, 1, 2, 3, 4, 5, 6, 9, 11, 12, 13, 14, 15, 16, 17][p.pat as usize % 15] }
  p.range = p.range.map(|r| r.max(40_000)); p.black = p.black.map(|b| b % 12_000);
  let i = make(&p);
  let mul = multipliers(&i.raw, p.kind == 0);
  let mm = mul.iter().cloned().fold(0.0, f64::max);
  let mut levels: Vec<f64> = n.levels.iter().map(|l| *l as f64 / 65535.0).collect();
  levels.extend([0.0, 1.0]);
  levels.sort_by(|a, b| a.partial_cmp(b).unwrap());
  let mut last: Option<(f64, f64, f64)> = None;
  for l in levels {
    let mut r = i.raw.clone();
    // white: every channel at its clipping point
    let sample = |c: usize| -> (u16, f64) {
      let (b, w) = (r.blacklevels[c] as f64, r.whitelevels[c] as f64);
      let v = if l == 1.0 { w } else { b + (w - b) * l / mul[c] };
      let q = v.round().min(65535.0);
      (q as u16, ((q - b) / (w - b) * mul[c]).min(1.0))
    };
    // keep below clipping of the most amplified channel, except for white itself
    if l < 1.0 && (0..4).any(|c| l / mul[c] > 1.0) { continue }
    if l == 1.0 && mul.iter().any(|m| *m < 1.0) { continue }
    let mut lo = 1.0f64; let mut hi = 0.0f64;
    for c in 0..if i.pattern.bytes().any(|c| c == b'E' || c == b'Y') { 4 } else { 3 } { let (_, v) = sample(c); lo = lo.min(v); hi = hi.max(v) }
    for y in 0..r.height { for x in 0..r.width { for k in 0..r.cpp {
      let c = if r.cpp == 3 { k } else if i.pattern.is_empty() { 0 } else { crate::db::color_of(&i.pattern, y, x) };
      let v = sample(c).0;
      let at = (y * r.width + x) * r.cpp + k;
      r.data[at] = v;
    } } }
    let o = r.to_rgb(n.mw as usize, n.mh as usize)?;
    // what rounding to whole sample values can do to the colour, amplified by the matrix
    let m = cam_to_xyz(&r.xyz_to_cam);
    let amp: f64 = m.iter().map(|row| row.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
    let tol = 0.008 + 8.0 * amp * (hi - lo).max(1e-6) * mm.max(1.0) / (l + 0.02);
    let mut mean = 0.0;
    for px in o.data.chunks(3) {
      let (a, b) = (px.iter().cloned().fold(1.0f32, f32::min) as f64, px.iter().cloned().fold(0.0f32, f32::max) as f64);
      if b - a > tol { return Err(format!("a neutral subject at {:.4} is rendered as {:?}", l, px)) }
      if l == 0.0 && b > 0.004 + tol - 0.008 { return Err(format!("a black subject is rendered as {:?}", px)) }
      if l == 1.0 && a < 0.996 { return Err(format!("a white subject is rendered as {:?}", px)) }
      mean += px.iter().map(|v| *v as f64).sum::<f64>();
    }
    mean /= o.data.len() as f64;
    if let Some((pl, pm, pt)) = last { if mean < pm - pt - tol { return Err(format!("a neutral subject at {:.4} is rendered darker ({:.5}) than at {:.4} ({:.5})", l, mean, pl, pm)) } }
    last = Some((l, mean, tol - 0.008));
  }
  out(label(&p, &i), last.is_some(), key(n))
}

// ---- colour matrix -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mat { k: u16, four: bool, scale: i16, v: [i16; 3], rows: u8 }
fn mat_strat() -> BoxedStrategy<Mat> {
  (any::<u16>(), any::<bool>(), prop_oneof![6 => 1i16..2000, 1 => -2000i16..0], [any::<i16>(), any::<i16>(), any::<i16>()], 0u8..4).prop_map(|(k, four, scale, v, rows)| Mat { k, four, scale, v, rows }).boxed()
}
fn check_matrix(m: &Mat) -> Result<Out, String> {
  let mut x = matrix_of(m.k, m.four);
  if m.v[0] % 4 == 0 {
    // far from any real camera, but still well-conditioned
    let mut r = Rng::new(m.k as u64 ^ (m.v[1] as u16 as u64) << 16 ^ (m.v[2] as u16 as u64) << 32);
    for i in 0..if m.four { 4 } else { 3 } { for j in 0..3 { x[i][j] = (r.range(-10000, 10000) as f32) / 10000.0 } }
    let (n, g) = normalized(&x);
    let bad = cam_to_xyz(&x).iter().flat_map(|r| r.iter()).any(|v| !(v.abs() < 3.0))
      || n.iter().flat_map(|r| r.iter()).any(|v| !(v.abs() < 3.0)) || g.iter().take(if m.four { 4 } else { 3 }).any(|v| !(v.abs() < 3.0));
    if bad { return out("ill-conditioned", false, 0) }
  }
  // each row may be scaled on its own
  let f = m.scale as f32 / 100.0;
  for i in 0..4 { if m.rows == 3 || i as u8 == m.rows { for j in 0..3 { x[i][j] *= f } } }
  let s = ImgSpec { w: 1, h: 1, crops: [0; 4], kind: 2, pat: 0, pix: Pix { style: 0, seed: 0 }, black: [0; 4], range: [9; 4], wbkind: 4, wb: [0; 4], matrix: 0, orient: 1, over: false };
  let mut r = make(&s).raw;
  r.xyz_to_cam = x;
  let inv = r.cam_to_xyz();
  let nw = r.neutralwb();
  let (n, g) = normalized(&x);
  let want = cam_to_xyz(&x);
  let mag: f64 = want.iter().flat_map(|r| r.iter()).fold(0.0, |a: f64, b| a.max(b.abs()));
  let tol = 2e-4 * (1.0 + mag) * (1.0 + mag);
  for i in 0..3 { for j in 0..4 {
    if !((inv[i][j] as f64 - want[i][j]).abs() <= tol) { return Err(format!("cam_to_xyz {:?}, expected {:?}", inv, want)) }
  } }
  // camera values of a colour, balanced for white, come back as that colour
  let v = m.v.map(|c| c as f64 / 32768.0);
  for i in 0..3 {
    let back: f64 = (0..4).map(|c| inv[i][c] as f64 * (0..3).map(|k| n[c][k] * v[k]).sum::<f64>()).sum();
    if !((back - v[i]).abs() <= 3.0 * tol) { return Err(format!("XYZ {:?} comes back with component {} as {}", v, i, back)) }
  }
  for c in 0..if m.four { 4 } else { 3 } {
    let e = g[c] / g[1];
    if !((nw[c] as f64 - e).abs() <= 1e-4 * e.abs()) { return Err(format!("neutralwb {:?}, coefficient {} should be {}", nw, c, e)) }
  }
  if nw[1] != 1.0 { return Err(format!("neutralwb {:?} is not relative to green", nw)) }
  if !m.four { for i in 0..3 { if inv[i][3] != 0.0 { return Err(format!("cam_to_xyz uses a fourth colour that the camera has not: {:?}", inv)) } } }
  out(if m.four { "four colours" } else { "three colours" }, true, key(m))
}

// ---- filter patterns -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pat { size: u8, colors: Vec<u8>, db: Option<u16>, shifts: Vec<(u32, u32)>, at: Vec<(u32, u32)> }
fn pat_strat() -> BoxedStrategy<Pat> {
  let coord = || prop_oneof![3 => (0u32..200, 0u32..200), 1 => (any::<u32>(), any::<u32>()), 1 => (0u32..60_000, 0u32..60_000)];
  let sh = || prop_oneof![3 => (0u32..100, 0u32..100), 1 => (any::<u32>(), any::<u32>()), 1 => (0u32..10_000, 0u32..10_000)];
  (0u8..5, proptest::collection::vec(any::<u8>(), 144), prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)],
   proptest::collection::vec(sh(), 0..4), proptest::collection::vec(coord(), 1..8))
    .prop_map(|(size, colors, db, shifts, at)| Pat { size, colors, db, shifts, at }).boxed()
}
fn check_pattern(p: &Pat) -> Result<Out, String> {
  let s: String = match p.db {
    Some(k) => { let v = patterns(); v[k as usize % v.len()].clone() }
    None => { let n = [0, 4, 16, 36, 144][p.size as usize % 5]; p.colors.iter().take(n).map(|c| ['R', 'G', 'B', 'E', 'M', 'Y'][*c as usize % 6]).collect() }
  };
  let base = CFA::new(&s);
  let (pw, ph) = crate::db::pat_dims(&s);
  if (base.width, base.height) != (pw, ph) { return Err(format!("pattern {:?} is {}x{}, expected {}x{}", s, base.width, base.height, pw, ph)) }
  let mut cfa = base.clone();
  let (mut sx, mut sy) = (0usize, 0usize);
  let mut step = 0;
  let verify = |cfa: &CFA, sx: usize, sy: usize| -> Result<(), String> {
    if cfa.is_valid() != !s.is_empty() { return Err(format!("pattern {:?}: valid is {}", s, cfa.is_valid())) }
    let mut at: Vec<(usize, usize)> = p.at.iter().map(|a| (a.0 as usize, a.1 as usize)).collect();
    for r in 0..ph.max(1) { for c in 0..pw.max(1) { at.push((r, c)); } }
    for r in 44..52 { for c in 44..52 { at.push((r, c)) } }
    for (r, c) in at {
      let e = if s.is_empty() { 0 } else { crate::db::color_of(&s, r + sy, c + sx) };
      let g = cfa.color_at(r, c);
      if g != e { return Err(format!("pattern {:?} shifted by x {} y {}: row {} col {} is {} expected {}", s, sx, sy, r, c, g, e)) }
    }
    Ok(())
  };
  verify(&cfa, 0, 0)?;
  for (x, y) in &p.shifts {
    cfa = cfa.shift(*x as usize, *y as usize);
    if step % 2 == 1 { cfa = cfa.clone() }
    step += 1;
    sx += *x as usize; sy += *y as usize;
    verify(&cfa, sx, sy)?;
  }
  out(format!("{} colours, {} shifts", s.len(), p.shifts.len()), s.len() > 0 && p.shifts.len() > 0, key(p))
}

// ---- large images --------------------------------------------------------------------

/// sizes of real photographs, so that anything that depends on size is reached
pub fn big_strat() -> BoxedStrategy<Sized> {
  (img_strat(40), 700u32..2600, 500u32..1900, 1u32..2600, 1u32..1900).prop_map(|(mut img, w, h, mw, mh)| { img.w = w; img.h = h; let (mw, mh) = (mw as u64, mh as u64); if img.pix.style == 0 { img.pix.style = 2 } Sized { img, mw, mh } }).boxed()
}

/// one dimension far beyond 16 bits, the other tiny
pub fn long_strat() -> BoxedStrategy<Sized> {
  (max_strat(40), 2_000u32..140_000, 1u32..4, any::<bool>(), any::<u16>(), 0u8..6).prop_map(|(mut s, l, t, side, a, how)| {
    if side { s.img.w = l; s.img.h = t } else { s.img.w = t; s.img.h = l }
    let (w, h) = if transposes(s.img.orient) { (s.img.h, s.img.w) } else { (s.img.w, s.img.h) };
    let (w, h) = (w as u64, h as u64);
    match how {
      0 => { s.mw = (w - w.min(1 + a as u64 % 9)).max(1); s.mh = huge(a) }
      1 => { s.mh = (h - h.min(1 + a as u64 % 9)).max(1); s.mw = huge(a) }
      2 => { s.mw = 1 + a as u64 * 2; s.mh = 1 + a as u64 * 2 }
      3 => { s.mw = (w / (2 + a as u64 % 50)).max(1); s.mh = h }
      _ => {}
    }
    s
  }).boxed()
}

const ASSUME: &[&str] = &["32 bit floating point arithmetic of this machine stays within the stated tolerances of the double precision reference"];

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C12", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images (mosaic, monochrome, RGB; crops, orientations) and size limits, including exact fits, exact ratios, one-off and extreme limits. Non-trivial: scaled, or not square",
      groups: || vec![group("small", 60_000, 1_500_000, || max_strat(40), check_size), group("long", 1_500, 40_000, long_strat, check_size), group("big", 60, 2_000, big_strat, check_size)] },
    Prop { id: "C13", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images processed with each orientation and upright; bit-exact comparison through the EXIF mapping. Non-trivial: an orientation that moves pixels and an image that is not uniform",
      groups: || vec![group("small", 40_000, 1_000_000, || max_strat(40), check_orient), group("long", 300, 9_000, long_strat, check_orient), group("big", 50, 1_500, big_strat, check_orient)] },
    Prop { id: "C14", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images processed at full size against an independent double precision reference. Non-trivial: samples vary and at least one pixel has a defined reference",
      groups: || vec![group("small", 110_000, 1_500_000, || max_strat(48), check_full), group("big", 50, 1_500, big_strat, check_full)] },
    Prop { id: "C15", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images and size limits that ask for scaling, against area averages computed in double precision. Non-trivial: samples vary and at least one pixel has a defined reference",
      groups: || vec![group("small", 70_000, 1_200_000, || max_strat(64), check_scaled), group("big", 60, 1_500, big_strat, check_scaled)] },
    Prop { id: "C16", threads: 0, both_builds: false, assumptions: &[],
      rule: "random and database filter patterns of every size, chains of up to three shifts, positions up to 2^32. Non-trivial: a pattern and at least one shift",
      groups: || vec![group("patterns", 2_000_000, 20_000_000, pat_strat, check_pattern)] },
    Prop { id: "C17", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "colour matrices of the database and perturbed sRGB-like ones, three and four rows, rows scaled, random colours sent through. All count; distinct by generated values",
      groups: || vec![group("matrices", 4_000_000, 40_000_000, mat_strat, check_matrix)] },
    Prop { id: "C18", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images with crops, against the same image with borders cut off and with the samples outside changed, bit-exact. Non-trivial: samples vary",
      groups: || vec![group("small", 90_000, 1_000_000, || max_strat(40), check_crop), group("long", 300, 9_000, long_strat, check_crop), group("big", 40, 1_000, big_strat, check_crop)] },
    Prop { id: "C19", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "generated raw images: relation between the three outputs, range, and invariance to scaling the white balance. Non-trivial: mid tones are present, or samples vary",
      groups: || vec![group("outputs", 40_000, 800_000, rel_strat, check_outputs), group("white-balance-scale", 25_000, 500_000, rel_strat, check_wbscale)] },
    Prop { id: "C22", threads: 0, both_builds: false, assumptions: ASSUME,
      rule: "uniform grey subjects at generated light levels through generated cameras (pattern, levels, white balance, matrix). Non-trivial: at least one level was in range",
      groups: || vec![group("neutral", 50_000, 500_000, neutral_strat, check_neutral)] },
  ]
}
