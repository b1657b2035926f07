//! Generated raw images for the processing properties, and an independent double precision
//! reference of what processing them must give.
use crate::db;
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Just, Strategy};
use proptest::prop_oneof;
use rawloader::decoders::Orientation;
use rawloader::{RawImage, CFA};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ImgSpec {
  /// size of the visible part
  pub w: u32,
  pub h: u32,
  pub crops: [u16; 4],
  /// 0: monochrome, 1: RGB samples, else a filter pattern
  pub kind: u8,
  pub pat: u16,
  pub pix: Pix,
  pub black: [u16; 4],
  pub range: [u16; 4],
  /// white balance; 0: not given, 1-3: that one unusable, else usable
  pub wbkind: u8,
  pub wb: [u16; 4],
  pub matrix: u16,
  pub orient: u8,
  /// samples above the white level and below the black level too
  pub over: bool,
}

pub const ORIENTS: [Orientation; 9] = [Orientation::Unknown, Orientation::Normal, Orientation::HorizontalFlip, Orientation::Rotate180,
  Orientation::VerticalFlip, Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270];
pub fn transposes(o: u8) -> bool { o >= 5 && o <= 8 }

const BAYER: [&str; 12] = ["RGGB", "BGGR", "GRBG", "GBRG", "RGEB", "RGBE", "EBGR", "GMYE", "YEGM", "GBRE", "MGYE", "BRGE"];

fn four(p: &str) -> bool { p.bytes().any(|c| c == b'E' || c == b'Y') }

pub fn patterns() -> &'static Vec<String> {
  static P: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
  P.get_or_init(|| {
    let mut v: Vec<String> = BAYER.iter().map(|s| s.to_string()).collect();
    // twice as many simple ones
    v.extend(["RGGB", "BGGR", "GRBG", "GBRG", "RGGB", "GBRG"].iter().map(|s| s.to_string()));
    let mut d: Vec<String> = db::all().iter().map(|c| c.pattern.clone()).filter(|p| p.len() > 4).collect();
    d.sort(); d.dedup();
    v.extend(d);
    // x-trans in other phases, a 2x8 one, and a 12x12 one
    let xt = "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG";
    v.push(xt.into());
    v.push(shift_pattern(xt, 1, 2));
    v.push(shift_pattern(xt, 4, 5));
    v.push("RGEBEBRGGRBEBEGR".into());
    v.push("GMYEGMEYGMYEMGEY".into());
    let mut r = Rng::new(77);
    for k in 0..3 {
      let mut s = String::new();
      for row in 0..12 { for col in 0..12 {
        s.push(match k { 0 => ['R', 'G', 'B'][r.below(3) as usize], 1 => BAYER[4].as_bytes()[(row % 2) * 2 + col % 2] as char, _ => ['R', 'G', 'B', 'G', 'G', 'R', 'G', 'B', 'G'][(row * 5 + col * 2 + row / 3) % 9] })
      } }
      v.push(s);
    }
    v
  })
}

/// the pattern as seen from a window starting at (x, y)
pub fn shift_pattern(p: &str, x: usize, y: usize) -> String {
  if p.is_empty() { return String::new() }
  let (w, h) = db::pat_dims(p);
  let b = p.as_bytes();
  (0..w * h).map(|i| b[((i / w + y) % h) * w + (i % w + x) % w] as char).collect()
}

pub struct Img { pub raw: RawImage, pub pattern: String, pub oshape: u8 }

/// the sRGB primaries with a D65 white
pub const RGB2XYZ: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
pub fn white_xyz() -> [f64; 3] { [0, 1, 2].map(|i| RGB2XYZ[i].iter().sum()) }

pub fn inv3(m: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
  let c = |a: usize, b: usize, d: usize, e: usize| m[a][b] * m[d][e] - m[a][e] * m[d][b];
  let det = m[0][0] * c(1, 1, 2, 2) - m[0][1] * c(1, 0, 2, 2) + m[0][2] * c(1, 0, 2, 1);
  let mut o = [[0.0; 3]; 3];
  for i in 0..3 { for j in 0..3 {
    let (r0, r1) = ((j + 1) % 3, (j + 2) % 3);
    let (c0, c1) = ((i + 1) % 3, (i + 2) % 3);
    o[i][j] = (m[r0][c0] * m[r1][c1] - m[r0][c1] * m[r1][c0]) / det;
  } }
  o
}

/// camera matrices: those of the database, and perturbed sRGB-like ones; three or four rows
pub fn matrix_of(k: u16, rows4: bool) -> [[f32; 3]; 4] {
  let mut m = [[0f32; 3]; 4];
  let cams: Vec<&db::Cam> = db::all().iter().filter(|c| c.matrix.len() >= if rows4 { 12 } else { 9 } && (rows4 || c.matrix.len() < 12)).collect();
  if k % 3 != 0 && !cams.is_empty() {
    let c = cams[(k / 3) as usize % cams.len()];
    for (i, v) in c.matrix.iter().enumerate().take(if rows4 { 12 } else { 9 }) { m[i / 3][i % 3] = *v as f32 }
    return m;
  }
  let base = inv3(RGB2XYZ);
  let mut r = Rng::new(k as u64 * 31 + 5);
  for i in 0..if rows4 { 4 } else { 3 } {
    let gain = 0.3 + r.f64();
    for j in 0..3 {
      let b = if i < 3 { base[i][j] } else { (base[1][j] + base[2][j]) / 2.0 };
      m[i][j] = ((b + (r.f64() - 0.5) * 0.4) * gain * 4000.0).round() as f32;
    }
  }
  m
}

pub fn make(s: &ImgSpec) -> Img {
  let (cw, ch) = (s.w.max(1) as usize, s.h.max(1) as usize);
  let crops = s.crops.map(|c| c as usize);
  let (w, h) = (cw + crops[1] + crops[3], ch + crops[0] + crops[2]);
  let pattern = if s.kind < 2 { String::new() } else { let p = patterns(); p[s.pat as usize % p.len()].clone() };
  let cpp = if s.kind == 1 { 3 } else { 1 };
  let rows4 = four(&pattern);
  let mut black = [0u16; 4];
  let mut white = [0u16; 4];
  for i in 0..4 {
    let k = if s.kind == 0 { 0 } else { i };
    black[i] = s.black[k] % 20000;
    white[i] = (black[i] as u32 + 64 + s.range[k] as u32).min(65535) as u16;
  }
  let top = if s.over { 65535 } else { *white.iter().max().unwrap() };
  let data = s.pix.gen(w * h * cpp, w * cpp, top);
  let mut wb = [0f32; 4];
  for i in 0..4 { wb[i] = (1 + s.wb[i] % 4000) as f32 / 1000.0 + 0.2 }
  if !rows4 && s.wbkind & 1 == 0 { wb[3] = std::f32::NAN }
  match s.wbkind { 0 => wb = [std::f32::NAN; 4], k if k < 4 => wb[k as usize - 1] = [std::f32::NAN, 0.0, std::f32::INFINITY, 1e-40, std::f32::NEG_INFINITY][s.wb[3] as usize % 5], _ => {} }
  let raw = RawImage {
    make: "m".into(), model: "n".into(), clean_make: "M".into(), clean_model: "N".into(),
    width: w, height: h, cpp, wb_coeffs: wb, whitelevels: white, blacklevels: black,
    xyz_to_cam: matrix_of(s.matrix, rows4), cfa: CFA::new(&pattern), crops,
    orientation: ORIENTS[s.orient as usize % 9], data,
  };
  Img { raw, pattern, oshape: s.orient % 9 }
}

pub fn img_strat(maxdim: u32) -> BoxedStrategy<ImgSpec> {
  let size = prop_oneof![
    800 => (1u32..maxdim, 1u32..maxdim),
    200 => (1u32..8, 1u32..8),
    100 => (maxdim..maxdim * 8, 1u32..6),
    100 => (1u32..6, maxdim..maxdim * 8),
    // rarely, more rows or columns than 16 bits can count
    2 => (65_500u32..66_500, 1u32..4),
    2 => (1u32..4, 65_500u32..66_500),
  ];
  let crops = prop_oneof![1 => Just([0u16; 4]), 3 => [0u16..8, 0u16..8, 0u16..8, 0u16..8], 1 => [0u16..60, 0u16..60, 0u16..60, 0u16..60]];
  let level = prop_oneof![1 => Just([0u16; 4]), 2 => (0u16..2000).prop_map(|b| [b; 4]), 2 => [0u16..20000, 0u16..20000, 0u16..20000, 0u16..20000]];
  let range = prop_oneof![2 => any::<u16>().prop_map(|b| [b; 4]), 1 => [any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()]];
  (size, crops, prop_oneof![1 => Just(0u8), 1 => Just(1u8), 6 => Just(2u8)], any::<u16>(), (1u8..8, any::<u32>()), level, range,
   prop_oneof![1 => 0u8..4, 3 => 4u8..8], [any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()], any::<u16>(), (0u8..9, any::<bool>()))
    .prop_map(|((w, h), crops, kind, pat, (style, seed), black, range, wbkind, wb, matrix, (orient, over))| ImgSpec {
      w, h, crops, kind, pat, pix: Pix { style, seed }, black, range, wbkind, wb, matrix, orient, over,
    }).boxed()
}

// ---- reference -----------------------------------------------------------------------

/// rows of the camera matrix scaled so that white gives one in each (zero rows stay zero)
pub fn normalized(m: &[[f32; 3]; 4]) -> ([[f64; 3]; 4], [f64; 4]) {
  let w = white_xyz();
  let mut n = [[0.0; 3]; 4];
  let mut g = [0.0; 4];
  for i in 0..4 {
    let s: f64 = (0..3).map(|j| m[i][j] as f64 * w[j]).sum();
    g[i] = 1.0 / s;
    if s != 0.0 { for j in 0..3 { n[i][j] = m[i][j] as f64 / s } }
  }
  (n, g)
}

/// XYZ of camera values: the least squares inverse, in linear sRGB, of the normalized matrix
pub fn cam_to_xyz(m: &[[f32; 3]; 4]) -> [[f64; 4]; 3] {
  let (n, _) = normalized(m);
  // camera from linear sRGB
  let mut a = [[0.0; 3]; 4];
  for i in 0..4 { for j in 0..3 { a[i][j] = (0..3).map(|k| n[i][k] * RGB2XYZ[k][j]).sum() } }
  let mut ata = [[0.0; 3]; 3];
  for i in 0..3 { for j in 0..3 { ata[i][j] = (0..4).map(|k| a[k][i] * a[k][j]).sum() } }
  let inv = inv3(ata);
  let mut o = [[0.0; 4]; 3];
  for i in 0..3 { for j in 0..4 {
    for r in 0..3 { for k in 0..3 { o[i][j] += RGB2XYZ[i][r] * inv[r][k] * a[j][k] } }
  } }
  o
}

fn labf(v: f64) -> f64 { let c = 6.0f64 / 29.0; if v > c * c * c { v.cbrt() } else { v / (3.0 * c * c) + 4.0 / 29.0 } }
fn labinv(v: f64) -> f64 { let c = 6.0f64 / 29.0; if v > c { v * v * v } else { 3.0 * c * c * (v - 4.0 / 29.0) } }

/// the base curve: monotone cubic through five points
pub fn base_curve(l: f64) -> f64 {
  const X: [f64; 5] = [0.0, 0.30, 0.5, 0.70, 1.0];
  const Y: [f64; 5] = [0.0, 0.25, 0.5, 0.75, 1.0];
  if l >= 1.0 { return 1.0 }
  let slope = |i: usize| (Y[i + 1] - Y[i]) / (X[i + 1] - X[i]);
  let tangent = |i: usize| -> f64 {
    if i == 0 { return slope(0) }
    if i == 4 { return slope(3) }
    let (a, b) = (X[i] - X[i - 1], X[i + 1] - X[i]);
    3.0 * (a + b) / ((a + 2.0 * b) / slope(i - 1) + (2.0 * a + b) / slope(i))
  };
  let mut i = 3;
  while i > 0 && l < X[i] { i -= 1 }
  let h = X[i + 1] - X[i];
  let t = (l - X[i]) / h;
  let (t2, t3) = (t * t, t * t * t);
  Y[i] * (2.0 * t3 - 3.0 * t2 + 1.0) + h * tangent(i) * (t3 - 2.0 * t2 + t) + Y[i + 1] * (3.0 * t2 - 2.0 * t3) + h * tangent(i + 1) * (t3 - t2)
}

pub fn multipliers(r: &RawImage, mono: bool) -> [f64; 4] {
  let wb = r.wb_coeffs;
  let c: [f64; 4] = if mono { [1.0; 4] } else if (0..3).any(|i| !wb[i].is_normal()) {
    let (_, g) = normalized(&r.xyz_to_cam);
    [g[0] / g[1], 1.0, g[2] / g[1], g[3] / g[1]]
  } else { [wb[0] as f64, wb[1] as f64, wb[2] as f64, wb[3] as f64] };
  [0, 1, 2, 3].map(|i| if c[i].is_normal() { c[i] / c[1] } else { 1.0 })
}

/// four-channel raw values of the visible part at full size, before levels
pub fn demosaic(img: &Img) -> (usize, usize, Vec<[f64; 4]>) {
  let r = &img.raw;
  let (w, h) = (r.width - r.crops[1] - r.crops[3], r.height - r.crops[0] - r.crops[2]);
  let at = |y: usize, x: usize, c: usize| r.data[((y + r.crops[0]) * r.width + x + r.crops[3]) * r.cpp + c] as f64;
  let mut o = Vec::with_capacity(w * h);
  for y in 0..h { for x in 0..w {
    if r.cpp == 3 { o.push([at(y, x, 0), at(y, x, 1), at(y, x, 2), 0.0]); continue }
    if img.pattern.is_empty() { let v = at(y, x, 0); o.push([v, v, v, 0.0]); continue }
    let color = |y: usize, x: usize| db::color_of(&img.pattern, y + r.crops[0], x + r.crops[3]);
    let mut sum = [0.0; 4];
    let mut n = [0.0f64; 4];
    for yy in y.saturating_sub(1)..(y + 2).min(h) { for xx in x.saturating_sub(1)..(x + 2).min(w) {
      let c = color(yy, xx);
      sum[c] += at(yy, xx, 0); n[c] += 1.0;
    } }
    let own = color(y, x);
    let mut p = [0.0; 4];
    for c in 0..4 { if n[c] > 0.0 { p[c] = sum[c] / n[c] } }
    p[own] = at(y, x, 0);
    o.push(p);
  } }
  (w, h, o)
}

/// (first, weight of each) of the source positions covered by target position i
fn cover(i: usize, n: usize, len: usize) -> (usize, Vec<f64>) {
  let k = len as f64 / n as f64;
  let (a, b) = (i as f64 * k, (i + 1) as f64 * k);
  let from = (a + 1e-9).floor() as usize;
  let to = ((b - 1e-9).ceil() as usize).min(len).max(from + 1);
  (from, (from..to).map(|p| (b.min(p as f64 + 1.0) - a.max(p as f64)).max(0.0)).collect())
}

/// area average of four-channel values
pub fn shrink(w: usize, h: usize, d: &[[f64; 4]], nw: usize, nh: usize) -> Vec<[f64; 4]> {
  let cols: Vec<_> = (0..nw).map(|x| cover(x, nw, w)).collect();
  let mut o = Vec::with_capacity(nw * nh);
  for y in 0..nh {
    let (r0, rw) = cover(y, nh, h);
    for x in 0..nw {
      let (c0, cw) = &cols[x];
      let mut s = [0.0; 4];
      let mut n = 0.0;
      for (j, wy) in rw.iter().enumerate() { for (i, wx) in cw.iter().enumerate() {
        let p = &d[(r0 + j) * w + c0 + i];
        for c in 0..4 { s[c] += p[c] * wy * wx }
        n += wy * wx;
      } }
      o.push(s.map(|v| v / n));
    }
  }
  o
}

/// Area average of mosaiced values, each color over its own samples. A pixel in which a color is
/// covered by (next to) nothing but a border touched by rounding of positions is given as NaN.
pub fn shrink_mosaic(img: &Img, nw: usize, nh: usize) -> Vec<[f64; 4]> {
  let r = &img.raw;
  let (w, h) = (r.width - r.crops[1] - r.crops[3], r.height - r.crops[0] - r.crops[2]);
  let cols: Vec<_> = (0..nw).map(|x| cover(x, nw, w)).collect();
  let mut o = Vec::with_capacity(nw * nh);
  for y in 0..nh {
    let (r0, rw) = cover(y, nh, h);
    for x in 0..nw {
      let (c0, cw) = &cols[x];
      let mut s = [0.0; 4];
      let mut n = [0.0f64; 4];
      for (j, wy) in rw.iter().enumerate() { for (i, wx) in cw.iter().enumerate() {
        let (yy, xx) = (r0 + j + r.crops[0], c0 + i + r.crops[3]);
        let c = db::color_of(&img.pattern, yy, xx);
        s[c] += r.data[yy * r.width + xx] as f64 * wy * wx;
        n[c] += wy * wx;
      } }
      let mut px = [0, 1, 2, 3].map(|c| if n[c] > 0.0 { s[c] / n[c] } else { 0.0 });
      if n.iter().any(|v| *v < 2e-3) {
        // one sample further on each side
        let mut near = [false; 4];
        for yy in r0.saturating_sub(1)..(r0 + rw.len() + 1).min(h) { for xx in c0.saturating_sub(1)..(c0 + cw.len() + 1).min(w) {
          near[db::color_of(&img.pattern, yy + r.crops[0], xx + r.crops[3])] = true;
        } }
        if (0..4).any(|c| n[c] < 2e-3 && near[c]) { px = [f64::NAN; 4] }
      }
      o.push(px);
    }
  }
  o
}

/// levels, white balance, colour and base curve of four-channel raw values:
/// linear rec709, or None where the luminance is not positive
pub fn develop(r: &RawImage, mono: bool, d: &[[f64; 4]]) -> Vec<Option<[f64; 3]>> {
  let mul = multipliers(r, mono);
  let m = cam_to_xyz(&r.xyz_to_cam);
  let w = white_xyz();
  let back = inv3(RGB2XYZ);
  d.iter().map(|p| {
    if p[0].is_nan() { return None }
    let mut v = [0.0; 4];
    for c in 0..4 {
      let (b, wh) = (r.blacklevels[c] as f64, r.whitelevels[c] as f64);
      v[c] = ((p[c] - b) / (wh - b) * mul[c]).min(1.0);
    }
    let xyz = [0, 1, 2].map(|i| (0..4).map(|c| m[i][c] * v[c]).sum::<f64>());
    if xyz[1] < 0.0 { return None }
    let f = [0, 1, 2].map(|i| labf(xyz[i] / w[i]));
    let l = (116.0 * f[1] - 16.0) / 100.0;
    let (a, b) = (f[0] - f[1], f[1] - f[2]);
    let fy = (base_curve(l) * 100.0 + 16.0) / 116.0;
    let q = [labinv(fy + a) * w[0], labinv(fy) * w[1], labinv(fy - b) * w[2]];
    Some([0, 1, 2].map(|i| (0..3).map(|k| back[i][k] * q[k]).sum()))
  }).collect()
}

pub fn gamma(v: f64) -> f64 { let v = v.max(0.0).min(1.0); if v <= 0.018 { 4.5 * v } else { 1.099 * v.powf(0.45) - 0.099 } }

/// where the sample at (row, col) of an oriented image of size (w, h) comes from
pub fn source(o: u8, row: usize, col: usize, w: usize, h: usize) -> (usize, usize) {
  // w, h: size of the unrotated image
  match o {
    2 => (row, w - 1 - col),
    3 => (h - 1 - row, w - 1 - col),
    4 => (h - 1 - row, col),
    5 => (col, row),
    6 => (h - 1 - col, row),
    7 => (h - 1 - col, w - 1 - row),
    8 => (col, w - 1 - row),
    _ => (row, col),
  }
}
