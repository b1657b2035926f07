use super::consts::*;
use super::packed_ref as pk;
use super::*;
use crate::bits::*;
use crate::ljpegw as lj;

pub static KINDS: &[Kind] = &[
  Kind { name: "cr2", class: "ljpeg", cams: |c| c.make == "Canon" && cr2cam(c), build: |s, c| cr2(s, c), heavy: false },
  Kind { name: "cr2-doubleline", class: "ljpeg", cams: |c| c.make == "Canon" && c.hint("double_line"), build: |s, c| cr2(s, c), heavy: false },
  Kind { name: "cr2-d2000", class: "curve", cams: |c| c.hint("linearization"), build: |s, c| cr2(s, c), heavy: false },
  Kind { name: "cr2-sraw422", class: "ljpeg", cams: |c| c.make == "Canon" && cr2cam(c), build: |s, c| sraw(s, c, 1), heavy: false },
  Kind { name: "cr2-sraw420", class: "ljpeg", cams: |c| c.make == "Canon" && cr2cam(c), build: |s, c| sraw(s, c, 2), heavy: false },
  Kind { name: "crw", class: "vendor", cams: |c| c.make == "Canon" && c.mode.is_empty() && c.model != "Canon PowerShot Pro70", build: crw, heavy: false },
  Kind { name: "crw-pro70", class: "packed", cams: |c| c.model == "Canon PowerShot Pro70", build: pro70, heavy: true },
];
fn cr2cam(c: &Cam) -> bool { c.mode.is_empty() && !c.hint("linearization") && c.model != "Canon PowerShot Pro70" }

/// where the samples of the coded stream go: vertical slices, each stored completely
/// before the next (n slices `a` wide, then one `b` wide)
pub fn slices(stream: &[u16], w: usize, h: usize, widths: &[usize]) -> Vec<u16> {
  let mut out = vec![0; w * h];
  let mut k = 0;
  let mut x0 = 0;
  for &fw in widths {
    for y in 0..h { for x in 0..fw { out[y * w + x0 + x] = stream[k]; k += 1 } }
    x0 += fw;
  }
  assert_eq!(x0, w);
  out
}

fn wb_entries(s: &Spec, c: &Cam, wb: [u16; 3], sel: u16, rng: &mut Rng) -> (Vec<(u16, V)>, [f32; 4]) {
  let f = [wb[0] as f32, wb[1] as f32, wb[2] as f32, NAN];
  match sel % 4 {
    0 | 1 => {
      let off = if c.wb_offset != 0 { c.wb_offset } else { 63 };
      let n = off + 4 + s.opt[5] as usize % 30;
      let mut v: Vec<u16> = (0..n).map(|_| rng.u64() as u16).collect();
      v[off] = wb[0]; v[off + 1] = wb[1]; v[off + 3] = wb[2];
      let be = s.lay.be;
      let e = if sel & 1 == 0 { V::U16(v) } else { let d: Vec<u8> = v.iter().flat_map(|&x| p16(be, x)).collect(); V::Undef(d) };
      (vec![(0x4001, e)], f)
    }
    2 => {
      let mut v: Vec<u32> = (0..5 + s.opt[5] as usize % 6).map(|_| rng.u64() as u32).collect();
      v[3] = wb[0] as u32; v[2] = wb[1] as u32; v[4] = wb[2] as u32;
      (vec![(0x0029, V::U32(v))], f)
    }
    _ => (vec![(0x00A4, V::U16(vec![wb[0], wb[1], wb[2]]))], f),
  }
}

/// assemble the file: raw directory flagged one of the ways Canon files flag it
fn assemble(s: &Spec, c: &Cam, raw: Vec<u8>, mut rawent: Vec<(u16, V)>, wb: Vec<(u16, V)>, how: u16) -> Vec<u8> {
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  let mut main = id_entries(c, s.orient);
  let pb = t.blob(vec![0x11; 32]);
  match how % 3 {
    0 => {
      // third-party layout: preview in the first directory, raw last in the chain with its id
      rawent.push((0xc5d8, V::U32(vec![1])));
      rawent.push((0x111, V::Off(vec![(rb, 0)])));
      main.push((0x111, V::Off(vec![(pb, 0)])));
      let r = t.ifd(rawent);
      let ex = t.ifd(wb);
      main.push((0x8769, V::Off(vec![(ex, 0)])));
      let m = t.ifd(main);
      t.chain(m, r);
      let (b, _) = t.build(m);
      b
    }
    1 => {
      rawent.push((0x828E, V::U8(vec![0, 1, 1, 2])));
      rawent.push((0x111, V::Off(vec![(rb, 0)])));
      let r = t.ifd(rawent);
      main.extend(wb);
      main.push((0x14A, V::Off(vec![(r, 0)])));
      let m = t.ifd(main);
      let (b, _) = t.build(m);
      b
    }
    _ => {
      main.push((0x0081, V::Off(vec![(rb, 0)])));
      main.extend(rawent);
      main.extend(wb);
      let m = t.ifd(main);
      let (b, _) = t.build(m);
      b
    }
  }
}

fn cr2(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xC12);
  let dbl = c.hint("double_line");
  let lin = c.hint("linearization");
  let cps = if s.opt[0] % 3 == 0 { 4 } else { 2 };
  let (mut w, mut h) = dims(s, c, cps, 1);
  if dbl { w = (w + cps - 1) / cps * cps; h = (h + 1) / 2 * 2; }
  let prec = if lin { 12 } else { [12, 14, 16, 15][s.opt[1] as usize % 4] };
  let max = if prec == 16 { 65535 } else { (1u16 << prec) - 1 };
  let d = s.pix.gen(w * h, w, max);
  // slices in the final geometry
  let how = s.opt[3] % 3;
  let mut ent = vec![];
  let slicing = s.opt[2] % 4;
  let widths: Vec<usize> = if slicing < 2 || how == 2 {
    if slicing == 1 && how != 2 { ent.push((0xC640, V::Num(vec![0, 0, w as u32]))) }
    vec![w]
  } else {
    let n = 1 + s.opt[4] as usize % 3;
    let a = (w / (n + 1)).max(1).min(w.saturating_sub(1) / n);
    if a == 0 { vec![w] } else {
      let mut v = vec![a; n];
      v.push(w - n * a);
      ent.push((0xC640, V::Num(vec![n as u32, a as u32, (w - n * a) as u32])));
      v
    }
  };
  let mut stream = vec![0u16; w * h];
  let mut k = 0;
  let mut x0 = 0;
  for &fw in &widths { for y in 0..h { for x in 0..fw { stream[k] = d[y * w + x0 + x]; k += 1 } } x0 += fw }
  let (fw, fh) = if dbl { (w * 2, h / 2) } else { (w, h) };
  let raw = lj::encode(lj::Frame { data: &stream, fw: fw / cps, fh, cps, precision: prec, long16: false, rng: Rng::new(s.lay.seed as u64 ^ 0x11) });
  ent.push((0x103, V::Num(vec![6])));
  let (mut wbe, wb) = if lin { (vec![], [NAN; 4]) } else { wb_entries(s, c, [s.wb[0], s.wb[1], s.wb[2]], s.opt[5], &mut rng) };
  let mut data = Data::Exact(d.clone());
  if lin {
    let curve = super::misc::gen_curve(4096, 15, s.opt[5] as u64);
    wbe.push((0x123, V::Num(curve.iter().map(|&x| x as u32).collect())));
    let (lo, hi) = d.iter().map(|&v| curve_bounds(&curve, v as usize)).unzip();
    data = Data::Range(lo, hi);
  }
  let bytes = assemble(s, c, raw, ent, wbe, how);
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, data, s.orient), label: format!("{}-c{}-p{}{}", s.kind, cps, prec, if widths.len() > 1 { "-sliced" } else { "" }) }
}

fn clamp16(v: i64) -> u16 { v.max(0).min(65535) as u16 }

fn sraw(s: &Spec, c: &Cam, sv: usize) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x5EA);
  let (w, h) = dims(s, c, 2, sv);
  // slices: pixel widths, even
  let how = s.opt[3] % 2;
  let mut ent = vec![];
  let slicing = s.opt[2] % 4;
  let n = 1 + s.opt[4] as usize % 3;
  let mut widths = vec![w];
  if slicing >= 2 {
    if sv == 2 {
      // equal slices, counted in samples (three per column)
      for k in (1..=n).rev() { if w % (2 * (k + 1)) == 0 { widths = vec![w / (k + 1); k + 1]; ent.push((0xC640, V::Num(vec![k as u32, (widths[0] * 3) as u32, (widths[0] * 3) as u32]))); break } }
    } else if w / 2 > n {
      let a = (w / 2 / (n + 1)).max(1) * 2;
      widths = vec![a; n];
      widths.push(w - n * a);
      // counted in coded samples (two per column)
      ent.push((0xC640, V::Num(vec![n as u32, (a * 2) as u32, ((w - n * a) * 2) as u32])));
    }
  } else if slicing == 1 { ent.push((0xC640, V::Num(vec![0, 0, 0]))) }
  // coded units, in stream order: sv rows of two pixels sharing chroma
  let units = w * h / 2 / sv;
  let prec = if s.opt[1] & 1 == 0 { 15 } else { 14 };
  let max = (1u16 << prec) - 1;
  let ys = s.pix.gen(units * 2 * sv, w, max);
  let cs = Pix { style: s.pix.style, seed: s.pix.seed ^ 0xC0 }.gen(units * 2, w, max);
  let nt = 1 + rng.below(3) as usize;
  let sel: Vec<usize> = (0..3).map(|_| rng.below(nt as u64) as usize).collect();
  let ids = [1, 2, 3];
  // older bodies state no size: then it is that of the JPEG frame, which may lie on its side
  // (so an upright one that is higher than wide needs the size)
  let sized = s.opt[0] % 3 != 0 || w < h;
  let side = !sized && w > h && widths.len() > 1 && h % 2 == 0 && s.opt[0] / 3 % 2 == 0;
  let (fw, fh) = if side { (h, w) } else { (w, h) };
  let mut coded = vec![];
  let per = fw / 2;
  for u in 0..units {
    let p = if u == 0 { None } else if u % per == 0 { Some((u - per, 0)) } else { Some((u - 1, 2 * sv - 1)) };
    let base = 1i32 << (prec - 1);
    let (mut py, pb, pr) = match p { None => (base, base, base), Some((q, k)) => (ys[q * 2 * sv + k] as i32, cs[q * 2] as i32, cs[q * 2 + 1] as i32) };
    for k in 0..2 * sv {
      let y = ys[u * 2 * sv + k] as i32;
      coded.push((sel[0], lj::wrap(y - py)));
      py = y;
    }
    coded.push((sel[1], lj::wrap(cs[u * 2] as i32 - pb)));
    coded.push((sel[2], lj::wrap(cs[u * 2 + 1] as i32 - pr)));
  }
  let tables = lj::tables_for(nt, &coded, &mut rng);
  let mut raw = lj::headers(prec, fw, fh, 3, &[(2 << 4 | sv) as u8, 0x11, 0x11], &tables, &sel, 1, &ids, &ids, &mut rng);
  let mut b = Msb::new();
  for (t, d) in coded { tables[t].diff(&mut b, d, false) }
  raw.extend(b.finish_jpeg());
  raw.extend([0xff, 0xd9]);
  // white balance within the range the format uses
  let wbv = [512 + s.wb[0] % 3000, 512 + s.wb[1] % 3000, 512 + s.wb[2] % 3000];
  let (wbe, wb) = wb_entries(s, c, wbv, s.opt[5], &mut rng);
  let (c1, c2, c3) = (1048576 / wbv[0] as i64, wbv[1] as i64, 1048576 / wbv[2] as i64);
  let yoff = if c.hint("40d_yuv") { 512 } else { 0 };
  let rgb = |y: u16, cb: u16, cr: u16| -> [u16; 3] {
    let (y, cb, cr) = (y as i64 - yoff, cb as i64 - 16383, cr as i64 - 16383);
    [clamp16((c1 * (y + cr)) >> 8), clamp16((c2 * (y + ((-778 * cb - cr * 2048) >> 12))) >> 8), clamp16((c3 * (y + cb)) >> 8)]
  };
  let mut out = vec![0u16; w * h * 3];
  let mut u = 0;
  let mut x0 = 0;
  for &fw in &widths {
    for yb in 0..h / sv { for xb in 0..fw / 2 {
      for k in 0..2 * sv {
        let (row, col) = (yb * sv + k / 2, x0 + xb * 2 + k % 2);
        let p = rgb(ys[u * 2 * sv + k], cs[u * 2], cs[u * 2 + 1]);
        out[(row * w + col) * 3..(row * w + col) * 3 + 3].copy_from_slice(&p);
      }
      u += 1;
    } }
    x0 += fw;
  }
  if sized {
    ent.push((0x100, V::Num(vec![w as u32])));
    ent.push((0x101, V::Num(vec![h as u32])));
  }
  let bytes = assemble(s, c, raw, ent, wbe, how);
  let mut exp = Expect::from_cam(c, w, h, wb, Data::Exact(out), s.orient);
  exp.cpp = 3;
  exp.crops = [0; 4];
  exp.black = Black::Fixed([0; 4]);
  exp.white = [65535; 4];
  Sample { bytes, exp, label: format!("{}{}{}", s.kind, if widths.len() > 1 { "-sliced" } else { "" }, if side { "-side" } else if !sized { "-nosize" } else { "" }) }
}

// ---- CIFF

/// (tag, data) entries into a heap; returns the heap bytes
fn heap(entries: &[(u16, Vec<u8>)], prefix: &[u8], rng: &mut Rng) -> Vec<u8> {
  let mut o = prefix.to_vec();
  let mut dir = vec![];
  for (tag, d) in entries {
    if d.len() <= 8 && rng.bool() {
      dir.push((tag | 0x4000, { let mut x = d.clone(); x.resize(8, 0); x }));
    } else {
      while o.len() % 2 == 1 { o.push(0) }
      let off = o.len() as u32;
      o.extend(d);
      let mut x = (d.len() as u32).to_le_bytes().to_vec();
      x.extend(off.to_le_bytes());
      dir.push((*tag, x));
    }
  }
  let doff = o.len() as u32;
  o.extend((dir.len() as u16).to_le_bytes());
  for (t, x) in dir { o.extend(t.to_le_bytes()); o.extend(x) }
  o.extend(doff.to_le_bytes());
  o
}

fn ciff_file(c: &Cam, pre: Vec<u8>, mut ents: Vec<(u16, Vec<u8>)>, nest: u16, rng: &mut Rng) -> Vec<u8> {
  let mut mm = c.make.as_bytes().to_vec();
  mm.push(0);
  mm.extend(c.model.as_bytes());
  mm.push(0);
  if nest & 4 != 0 { mm.extend([0; 5]) }
  ents.push((0x080a, mm));
  // unrelated entries
  for k in 0..nest as usize % 3 { let n = rng.below(20) as usize; ents.push((0x0805 + k as u16, rng.bytes(n))) }
  for i in (1..ents.len()).rev() { let j = rng.below(i as u64 + 1) as usize; ents.swap(i, j) }
  let mut hdr = b"II".to_vec();
  hdr.extend(26u32.to_le_bytes());
  hdr.extend(b"HEAPCCDR");
  hdr.extend([2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
  assert_eq!(hdr.len(), 26);
  let body = if nest & 3 == 0 { heap(&ents, &pre, rng) } else {
    // some entries in nested heaps
    let k = ents.len() / 2;
    let sub = heap(&ents[k..], &[], rng);
    let mut outer = ents[..k].to_vec();
    if nest & 3 == 2 { let sub2 = heap(&[(0x300b, sub)], &[], rng); outer.push((0x300a, sub2)); } else { outer.push((0x300a, sub)); }
    heap(&outer, &pre, rng)
  };
  hdr.extend(body);
  hdr
}

struct Tree { code: Vec<Option<(u32, u32)>> }
fn tree(t: &[u8]) -> Tree {
  let mut code = vec![None; 256];
  let mut next = 0u32;
  let mut pos = 16;
  for len in 1..=16u32 {
    next <<= 1;
    for _ in 0..t[len as usize - 1] { if code[t[pos] as usize].is_none() { code[t[pos] as usize] = Some((next, len)) } next += 1; pos += 1 }
  }
  Tree { code }
}

fn crw_stream(hi: &[u16], w: usize, table: usize, rng: &mut Rng) -> Vec<u8> {
  // the codes have a second way to say zero
  let fill = rng.bool();
  let (t1, t2) = (tree(&CRW_FIRST[table]), tree(&CRW_SECOND[table]));
  let mut b = Msb::new();
  let mut carry = 0i32;
  let mut base = [512i32; 2];
  let put = |b: &mut Msb, t: &Tree, sym: usize| { let (c, l) = t.code[sym].expect("crw symbol"); b.put(c, l) };
  let bits = |b: &mut Msb, d: i32, l: u32| b.put(if d > 0 { d as u32 } else { (d + (1 << l) - 1) as u32 }, l);
  let cat = |d: i32| { let mut n = 0; while (d.abs() >> n) != 0 { n += 1 } n };
  for (blk, px) in hi.chunks(64).enumerate() {
    let mut diff = [0i32; 64];
    for i in 0..64 {
      if (blk * 64 + i) % w == 0 { base = [512; 2] }
      diff[i] = px[i] as i32 - base[i & 1];
      base[i & 1] = px[i] as i32;
    }
    let d0 = diff[0] - carry;
    carry = diff[0];
    let l = cat(d0);
    if l == 0 && fill && t1.code[0xff].is_some() && rng.bool() { put(&mut b, &t1, 0xff) } else { put(&mut b, &t1, l as usize) }
    if l > 0 { bits(&mut b, d0, l) }
    let mut i = 1;
    while i < 64 {
      let mut run = 0;
      while i + run < 64 && diff[i + run] == 0 { run += 1 }
      if i + run == 64 { put(&mut b, &t2, 0); break }
      if fill && t2.code[0xff].is_some() { while run > 0 && rng.below(4) == 0 { put(&mut b, &t2, 0xff); run -= 1; i += 1 } }
      while run > 15 { put(&mut b, &t2, 0xf0); run -= 16; i += 16 }
      i += run;
      let l = cat(diff[i]);
      put(&mut b, &t2, run << 4 | l as usize);
      bits(&mut b, diff[i], l);
      i += 1;
    }
  }
  let mut o = b.finish_jpeg();
  o.extend([0xff, 0xd9]);
  o
}

fn crw(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xC4);
  let (w, h) = dims(s, c, 2, 1);
  // whole blocks of 64 samples
  let h = (h..h + 64).find(|h| w * h % 64 == 0).unwrap();
  let low = !c.hint("nolowbits");
  let hi = s.pix.gen(w * h, w, 1023);
  let lo: Vec<u16> = (0..w * h).map(|_| (rng.u64() & 3) as u16).collect();
  let mut pre = vec![];
  if low { for q in lo.chunks(4) { pre.push((q[0] | q[1] << 2 | q[2] << 4 | q[3] << 6) as u8) } }
  pre.extend(rng.bytes(514));
  let table = s.opt[0] as usize % 3;
  pre.extend(crw_stream(&hi, w, table, &mut rng));
  pre.extend(rng.bytes(s.lay.pad as usize));
  let d: Vec<u16> = if low { hi.iter().zip(&lo).map(|(a, b)| a << 2 | b).map(|v| if w == 2672 && v < 512 { v + 2 } else { v }).collect() } else { hi };
  let mut ents: Vec<(u16, Vec<u8>)> = vec![];
  let le = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
  ents.push((0x1031, le(&[34, w as u16, h as u16, 1, 1, 2, 3, 4, 5])));
  let mut dt = (table as u32).to_le_bytes().to_vec();
  dt.extend(rng.bytes(12));
  ents.push((0x1835, dt));
  let mut rnd16 = |n: usize| -> Vec<u16> { (0..n).map(|_| rng.u64() as u16).collect() };
  let wbk = s.opt[1] % 5;
  let o = c.wb_offset;
  let (a, g, bl) = (s.wb[0], s.wb[1], s.wb[2]);
  let f = [a as f32, g as f32, bl as f32, NAN];
  let wb = match wbk {
    0 => { let mut v = rnd16(o + 8); v[o] = a; v[o + 1] = g; v[o + 3] = bl; ents.push((0x10a9, le(&v))); f }
    1 | 2 if !c.hint("nocinfo2") => {
      let mut v = rnd16(80);
      if wbk == 1 { v[0] = if s.opt[3] % 4 == 0 { 513 } else { 513 + s.wb[3] % 60000 }; v[62] = a; v[63] = g; v[60] = bl; v[61] = s.wb[3]; ents.push((0x102c, le(&v))); [f[0], f[1], f[2], s.wb[3] as f32] }
      else { v[0] = if s.opt[3] % 4 == 0 { 512 } else { s.wb[3] % 513 }; v[51] = a; v[50] = g; v[53] = s.wb[3]; v[52] = bl; ents.push((0x102c, le(&v))); [f[0], (g as f32 + s.wb[3] as f32) / 2.0, f[2], NAN] }
    }
    3 => { let mut v = rnd16(384); v[36] = a; v[37] = g; v[39] = bl; ents.push((0x0032, le(&v))); [1024.0 / f[0], 1024.0 / f[1], 1024.0 / f[2], NAN] }
    4 => {
      let n = o + 8 + 400;
      let mut v = rnd16(n);
      let k: [u16; 2] = if c.hint("wb_mangle") { [0x410, 0x45f3] } else { [0, 0] };
      v[o + 1] = a ^ k[1]; v[o] = g ^ k[0]; v[o + 2] = bl ^ k[0];
      ents.push((0x0032, le(&v)));
      f
    }
    _ => [NAN; 4],
  };
  let bytes = ciff_file(c, pre, ents, s.opt[2], &mut rng);
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), 0), label: format!("crw-t{}{}-wb{}", table, if low { "-low" } else { "" }, wbk) }
}

fn pro70(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x70);
  let (w, h) = (1552, 1024);
  let d = s.pix.gen(w * h, w, 1023);
  let pre = pk::msb_swapped(&d, 10, 2);
  let bytes = ciff_file(c, pre, vec![], s.opt[2], &mut rng);
  Sample { bytes, exp: Expect::from_cam(c, w, h, [NAN; 4], Data::Exact(d), 0), label: "crw-pro70".into() }
}
