use super::consts::*;
use super::packed_ref as pk;
use super::*;
use crate::bits::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "nef-uncompressed", class: "packed", cams: nefcam, build: |s, c| nef(s, c, 0), heavy: false },
  Kind { name: "nef-d100", class: "packed", cams: |c| c.model == "NIKON D100" && c.mode == "12bit", build: |s, c| nef(s, c, 0), heavy: false },
  Kind { name: "nef-lossless", class: "vendor", cams: nefcam, build: |s, c| nef(s, c, 1), heavy: false },
  Kind { name: "nef-lossy", class: "curve", cams: nefcam, build: |s, c| nef(s, c, 2), heavy: false },
  Kind { name: "nef-split", class: "curve", cams: nefcam, build: |s, c| nef(s, c, 3), heavy: false },
  Kind { name: "nef-snef", class: "curve", cams: nefcam, build: |s, c| nef(s, c, 4), heavy: false },
  Kind { name: "nrw", class: "packed", cams: |c| c.make == "NIKON" && c.mode.is_empty(), build: nrw, heavy: false },
];
fn nefcam(c: &Cam) -> bool { c.make == "NIKON CORPORATION" && (c.mode == "12bit" || c.mode == "14bit") && c.model != "NIKON D100" }

/// a Nikon makernote: its own little TIFF behind a ten byte header, or (old cameras) a
/// plain directory of the file
fn makernote(t: &mut Tiff, s: &Spec, ents: Vec<(u16, V)>, own: bool) -> V {
  if own {
    let mut m = Tiff::new(&mlay(s));
    m.root_at_8 = true;
    let root = m.ifd(ents);
    let (b, _) = m.build(root);
    let mut o = b"Nikon\0\x02\x10\0\0".to_vec();
    o.extend(b);
    let l = o.len() as u32;
    let bl = t.blob(o);
    V::At(7, l, bl)
  } else {
    let i = t.ifd(ents);
    V::At(7, 14, i)
  }
}
fn mlay(s: &Spec) -> Layout { Layout { be: s.opt[5] & 8 == 0, seed: s.lay.seed ^ 77, ..s.lay.clone() } }

/// (encoded entries, coefficients); `be` is the byte order of the directory they go in
fn nefwb(s: &Spec, be: bool, rng: &mut Rng) -> (Vec<(u16, V)>, [f32; 4], &'static str) {
  let (a, g, b) = (s.wb[0], s.wb[1], s.wb[2]);
  let f = [a as f32, g as f32, b as f32, NAN];
  match s.opt[4] % 5 {
    0 => (vec![(0x0c, V::Rat(vec![(a as u32, 256), (b as u32, 256), (1, 1), (1, 1)]))], [a as f32 / 256.0, 1.0, b as f32 / 256.0, NAN], "wb0"),
    1 => {
      let mut d = b"0100".to_vec();
      d.extend(rng.bytes(100));
      for (k, v) in [(36, a), (38, g), (37, b)] { d[2 * k..2 * k + 2].copy_from_slice(&p16(be, v)) }
      (vec![(0x97, V::Undef(d))], f, "wb0100")
    }
    2 => {
      let mut d = b"0103".to_vec();
      d.extend(rng.bytes(100));
      for (k, v) in [(10, a), (11, g), (12, b)] { d[2 * k..2 * k + 2].copy_from_slice(&p16(be, v)) }
      (vec![(0x97, V::Undef(d))], f, "wb0103")
    }
    v => {
      let mut plain = rng.bytes(284);
      let off = if v == 3 { 6 } else { 14 };
      for (k, x) in [(0, a), (2, g), (6, b)] { plain[off + k..off + k + 2].copy_from_slice(&x.to_be_bytes()) }
      // serial number: digits, or other characters counted by their code modulo ten
      let serial: Vec<u8> = (0..1 + s.opt[3] % 9).map(|_| if rng.below(8) == 0 { b" -/:.AZa~#"[rng.below(10) as usize] } else if rng.below(8) == 0 { b'A' + rng.below(26) as u8 } else { b'0' + rng.below(10) as u8 }).collect();
      let mut no = 0u64;
      for &c in &serial { no = no.wrapping_mul(10) + if c.is_ascii_digit() { (c - b'0') as u64 } else { (c % 10) as u64 } }
      let key = rng.bytes(4);
      let ci = WB_SERIALMAP[(no & 255) as usize];
      let mut cj = WB_KEYMAP[(key[0] ^ key[1] ^ key[2] ^ key[3]) as usize];
      let mut ck = 0x60u8;
      for x in plain.iter_mut() { cj = cj.wrapping_add(ci.wrapping_mul(ck)); ck = ck.wrapping_add(1); *x ^= cj }
      let mut d = if v == 3 { b"0204".to_vec() } else { b"0205".to_vec() };
      if v == 3 { d.extend(rng.bytes(280)) }
      d.extend(plain);
      let mut ser = serial.clone();
      ser.push(0);
      let n = ser.len() as u32;
      (vec![(0x97, V::Undef(d)), (0x1d, V::Raw(2, n, ser)), (0xa7, V::Raw(4, 1, key))], f, if v == 3 { "wb0204" } else { "wb0205" })
    }
  }
}

struct Codes { all: Vec<(usize, u32, u32)> }
fn codes(n: usize) -> Codes {
  let t = &NIKON_TREE[n];
  let mut all = vec![];
  let (mut next, mut pos) = (0u32, 16);
  for len in 1..=16u32 {
    next <<= 1;
    for _ in 0..t[len as usize - 1] { all.push((t[pos] as usize, next, len)); next += 1; pos += 1 }
  }
  Codes { all }
}
impl Codes {
  fn diff(&self, b: &mut Msb, d: i32) {
    let n = crate::ljpegw::cat(d);
    let (_, c, l) = *self.all.iter().find(|x| x.0 == n as usize).expect("symbol");
    b.put(c, l);
    if n > 0 { b.put(if d > 0 { d as u32 } else { (d + (1 << n) - 1) as u32 }, n) }
  }
  /// any codable difference that keeps `p` inside 0..max; returns the new value
  fn any(&self, b: &mut Msb, p: i32, max: i32, rng: &mut Rng) -> i32 {
    for _ in 0..40 {
      let (s, c, l) = self.all[rng.below(self.all.len() as u64) as usize];
      let (len, shl) = (s as u32 & 15, s as u32 >> 4);
      if len == 0 { b.put(c, l); return p }
      // the low `shl` bits of the difference are not stored
      let bits = rng.below(1 << (len - shl)) as u32;
      let top = bits >> (len - shl - 1) & 1 == 1;
      let v = if shl == 0 { bits as i32 } else { ((bits << shl) + (1 << (shl - 1))) as i32 };
      let d = if top { v } else if shl == 0 { v - (1 << len) + 1 } else { v - (1 << len) };
      if p + d >= 0 && p + d < max { b.put(c, l); b.put(bits, len - shl); return p + d }
    }
    let (_, c, l) = *self.all.iter().find(|x| x.0 == 0).unwrap();
    b.put(c, l);
    p
  }
}

fn nef(s: &Spec, c: &Cam, what: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xEF);
  let bps: usize = if c.mode == "14bit" { 14 } else { 12 };
  let (mut w, h) = dims(s, c, 2, 1);
  if c.model == "NIKON D100" { w = 3040 }
  let max = (1u32 << bps) as i32;
  let own = s.opt[5] & 7 != 0;
  let mbe = if own { mlay(s).be } else { s.lay.be };
  let mut sw = s.clone();
  // small files un-apply the white balance, which is relative to green there
  if what == 4 { sw.opt[4] = 0; sw.wb[0] = 256 + s.wb[0] % 3000; sw.wb[2] = 256 + s.wb[2] % 3000 }
  let (wbe, wb, wbl) = nefwb(&sw, mbe, &mut rng);
  let mut label = format!("{}-{}", s.kind, bps);
  let mut mn = wbe;
  let mut compression = 34713u32;
  let mut count = None;
  let mut cpp = 1;
  let raw;
  let data;
  match what {
    0 => {
      let d = s.pix.gen(w * h, w, max as u16 - 1);
      raw = if c.model == "NIKON D100" { pk::control12(&d, w, true, s.opt[1] as u8) }
        else if bps == 12 { if s.lay.be { pk::msb(&d, w, 12, 0) } else { pk::lsb12(&d, w) } }
        else { let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16) << 14).collect(); pk::u16s(&up, s.lay.be) };
      if s.opt[0] & 1 == 0 { compression = 1; count = Some(s.opt[1] as u32) } else { count = Some((w * h * bps / 8) as u32) }
      label += if compression == 1 { "" } else { "-bysize" };
      data = Data::Exact(d);
    }
    4 => {
      let n = w * h / 2;
      let mut o = vec![];
      let (mut lo, mut hi) = (vec![], vec![]);
      let ys = s.pix.gen(w * h, w, 4095);
      let cs = Pix { style: s.pix.style, seed: s.pix.seed ^ 3 }.gen(n * 2, w, 4095);
      let curve: Vec<f64> = (0..4096).map(|i| {
        let v = i as f64 / 4095.0;
        let r = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
        (r * 262140.0).min(65535.0)
      }).collect();
      let cl = |v: f64| v.max(0.0).min(4095.0) as usize;
      // value range of a companded channel, allowing for the dither and rounding
      let ch = |v: f64| -> (f64, f64) {
        let (a, b) = (cl(v - 0.01), cl(v + 0.01));
        let l = { let lo = curve[a.saturating_sub(1)]; let up = curve[(a + 1).min(4095)]; (curve[a] - (up - lo) / 4.0 - 2.5).max(0.0) };
        let u = { let lo = curve[b.saturating_sub(1)]; let up = curve[(b + 1).min(4095)]; (curve[b] + (up - lo) / 4.0 + 2.5).max((up - lo) / 2.0 + 1.0).min(65535.0) };
        (l, u)
      };
      let inv = |x: f32| -> (f64, f64) { let v = 1024.0 / x as f64; ((v * 0.999999).floor(), (v * 1.000001).floor()) };
      let (ir, ib) = (inv(wb[0]), inv(wb[2]));
      let un = |r: (f64, f64), i: (f64, f64)| -> (u16, u16) {
        let f = |a: f64, b: f64| (((a.floor() * b) as i64 + 512) >> 10).max(0).min(32767) as u16;
        (f(r.0, i.0), f(r.1.ceil(), i.1))
      };
      for k in 0..n {
        let (y1, y2, cb, cr) = (ys[2 * k], ys[2 * k + 1], cs[2 * k], cs[2 * k + 1]);
        let mut b = Lsb::new();
        b.put(y1 as u32, 12); b.put(y2 as u32, 12); b.put(cb as u32, 12); b.put(cr as u32, 12);
        o.extend(b.finish());
        let (cb, cr) = (cb as f64 - 2048.0, cr as f64 - 2048.0);
        for y in [y1 as f64, y2 as f64] {
          let r = un(ch(y + 1.370705 * cr), ir);
          let g = ch(y - 0.337633 * cb - 0.698001 * cr);
          let bl = un(ch(y + 1.732446 * cb), ib);
          lo.extend([r.0, g.0 as u16, bl.0]);
          hi.extend([r.1, g.1.ceil() as u16, bl.1]);
        }
      }
      raw = o;
      count = Some((w * h * 3) as u32);
      cpp = 3;
      data = Data::Range(lo, hi);
    }
    _ => {
      let (mut meta, version) = match what {
        1 => (vec![70u8, [48u8, 49, 88][s.opt[0] as usize % 3]], "f"),
        3 => (vec![68, 32], "d"),
        _ => { let v = [[68u8, 32], [68, 16], [73, 48], [65, 88], [73, 88]][s.opt[0] as usize % 5]; (v.to_vec(), if v == [68, 32] { "d" } else { "c" }) }
      };
      if meta[0] == 73 || meta[1] == 88 { meta.extend(rng.bytes(2110)) }
      let e = |o: &mut Vec<u8>, v: u16| o.extend(p16(mbe, v));
      let preds: Vec<u16> = (0..4).map(|_| rng.below(max as u64) as u16).collect();
      for &p in &preds { e(&mut meta, p) }
      let mut split = 0;
      let curve: Vec<u16> = if version == "f" {
        e(&mut meta, rng.u64() as u16);
        (0..max as u32).map(|v| v as u16).collect()
      } else if version == "d" {
        // coarse curve, interpolated; the entry behind the last one is not reachable
        let step = 1usize << (s.opt[1] as usize % 5 + if bps == 14 { 4 } else { 2 });
        let csize = max as usize / step + 1;
        let pts = super::misc::gen_curve(csize, (60000 / csize as u64).max(2), s.opt[2] as u64);
        e(&mut meta, csize as u16);
        for &p in &pts { e(&mut meta, p) }
        if what == 3 { split = 1 + s.opt[3] as usize % (h + 1) }
        let pos = 562;
        if meta.len() < pos + 2 { meta.resize(pos + 2, 0) }
        meta[pos..pos + 2].copy_from_slice(&p16(mbe, split as u16));
        // the split row shares its place with a curve point when the curve is long
        let at = |k: usize| -> u16 { let p = 12 + 2 * k; if mbe { u16::from_be_bytes([meta[p], meta[p + 1]]) } else { u16::from_le_bytes([meta[p], meta[p + 1]]) } };
        let pts: Vec<u16> = (0..csize).map(at).collect();
        (0..max as usize).map(|i| { let (a, f) = (i / step, i % step); ((pts[a] as usize * (step - f) + pts[a + 1] as usize * f) / step) as u16 }).collect()
      } else {
        let csize = [max as usize, 4000, 1024, 0x4001][s.opt[1] as usize % 4];
        let pts = super::misc::gen_curve(csize, (60000 / csize as u64).max(2), s.opt[2] as u64);
        e(&mut meta, csize as u16);
        for &p in &pts { e(&mut meta, p) }
        pts
      };
      let n = (curve.len() as i32).min(max);
      let monotone = curve.windows(2).all(|w| w[0] <= w[1]);
      if !monotone {
        // a split row number inside a long curve would make it jump: use the short one instead
        let mut s2 = s.clone();
        s2.opt[1] = 4;
        return nef(&s2, c, what);
      }
      // each coded row: two predictors per row parity
      let sel = if what == 1 { 2 } else { 0 } + if bps == 14 { 3 } else { 0 };
      let (t0, t1) = (codes(sel), codes(if what == 1 { sel } else { sel + 1 }));
      let want = s.pix.gen(w * h, w, (n - 1) as u16);
      let mut d = vec![0u16; w * h];
      let mut up = [[preds[0] as i32, preds[2] as i32], [preds[1] as i32, preds[3] as i32]];
      let mut b = Msb::new();
      for y in 0..h {
        let after = split > 0 && y >= split;
        let mut left = up[y & 1];
        for x in 0..w {
          let k = x & 1;
          let v = if after { if left[k] >= n { left[k] = n - 1 } t1.any(&mut b, left[k], n, &mut rng) }
            else { let v = want[y * w + x] as i32; t0.diff(&mut b, v - left[k]); v };
          left[k] = v;
          d[y * w + x] = v as u16;
          if x < 2 { up[y & 1][k] = v }
        }
      }
      let mut r = b.finish();
      r.extend(rng.bytes(8));
      raw = r;
      if split > 0 && split < h { label += "-after" }
      let mut other = rng.bytes(20);
      other[0] = 1;
      if s.opt[5] & 16 == 0 { mn.push((0x8c, V::Undef(meta))) } else { mn.push((0x8c, V::Undef(other))); mn.push((0x96, V::Undef(meta))) }
      data = if what == 1 { Data::Exact(d) } else {
        let (lo, hi) = d.iter().map(|&v| curve_bounds(&curve, v as usize)).unzip();
        Data::Range(lo, hi)
      };
    }
  }
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  let count = count.unwrap_or_else(|| { let mut k = 1000 + s.opt[1] as usize; while k == w * h * bps / 8 || k == w * h * 3 { k += 1 } k as u32 });
  let rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x102, V::Num(vec![bps as u32])), (0x103, V::Num(vec![compression])),
    (0x111, V::Off(vec![(rb, 0)])), (0x117, V::Num(vec![count])), (0x828E, V::U8(vec![0, 1, 1, 2]))];
  let mv = makernote(&mut t, s, mn, own);
  let ex = t.ifd(vec![(0x927C, mv)]);
  let mut main = id_entries(c, s.orient);
  main.push((0x8769, V::Off(vec![(ex, 0)])));
  let root = super::misc::two_ifds(&mut t, main, rawd, s.opt[0] >> 4);
  let (bytes, _) = t.build(root);
  let mut exp = Expect::from_cam(c, w, h, wb, data, s.orient);
  if cpp == 3 { exp.cpp = 3; exp.black = Black::Fixed([0; 4]); exp.white = [65535; 4] }
  Sample { bytes, exp, label: format!("{}-{}", label, wbl) }
}

fn nrw(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x44);
  let (w, h) = dims(s, c, 8, 1);
  let w = w + 1000;
  let d = s.pix.gen(w * h, w, 4095);
  let raw = if c.hint("coolpixsplit") { pk::interlaced12(&d, w, h, |half| half, 0) }
    else if c.hint("msb32") { pk::msb_swapped(&d, 12, 4) }
    else { pk::msb(&d, w, 12, 0) };
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  let (a, g, b) = (s.wb[0], s.wb[1], s.wb[2]);
  let kind = s.opt[4] % 4;
  let (mn, mut wb): (Vec<(u16, V)>, [f32; 4]) = match kind {
    0 => (vec![(0x0c, V::Rat(vec![(a as u32, 256), (b as u32, 256)]))], [a as f32 / 256.0, 1.0, b as f32 / 256.0, NAN]),
    1 | 2 => {
      let mut x = rng.bytes(1600);
      x[..4].copy_from_slice(b"NRW ");
      x[4..8].copy_from_slice(if kind == 1 { b"0100" } else { b"0101" });
      let o = if kind == 1 { 1556 } else { 56 };
      for (k, v) in [a as u32, g as u32, s.wb[3] as u32, b as u32].iter().enumerate() { x[o + 4 * k..o + 4 * k + 4].copy_from_slice(&v.to_le_bytes()) }
      (vec![(0x14, V::Undef(x))], [a as f32 * 4.0, g as f32 + s.wb[3] as f32, b as f32 * 4.0, NAN])
    }
    _ => {
      let mut x = rng.bytes(1300);
      x[0] = b'A';
      x[1248..1250].copy_from_slice(&a.to_be_bytes());
      x[1250..1252].copy_from_slice(&b.to_be_bytes());
      (vec![(0x14, V::Undef(x))], [a as f32, 256.0, b as f32, NAN])
    }
  };
  if c.hint("nowb") { wb = [NAN; 4] }
  let mv = makernote(&mut t, s, mn, s.opt[5] & 7 != 0);
  let ex = t.ifd(vec![(0x927C, mv)]);
  let mut main = id_entries(c, s.orient);
  main.push((0x8769, V::Off(vec![(ex, 0)])));
  // a small image that also carries a filter pattern must not be taken
  let small = vec![(0x100, V::Num(vec![160])), (0x101, V::Num(vec![120])), (0x828E, V::U8(vec![0, 1, 1, 2])), (0x111, V::Num(vec![8]))];
  let rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)])), (0x828E, V::U8(vec![0, 1, 1, 2]))];
  let root = if s.opt[0] & 3 == 0 { main.extend(rawd); t.ifd(main) } else {
    let (r, sm) = (t.ifd(rawd), t.ifd(small));
    let both = if s.opt[0] & 3 == 1 { vec![(r, 0)] } else if s.opt[0] & 3 == 2 { vec![(r, 0), (sm, 0)] } else { vec![(sm, 0), (r, 0)] };
    main.push((0x14A, V::Off(both)));
    t.ifd(main)
  };
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label: format!("nrw-{}-wb{}", if c.hint("coolpixsplit") { "split" } else if c.hint("msb32") { "msb32" } else { "12be" }, kind) }
}
