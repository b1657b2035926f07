use super::*;
use super::packed_ref as pk;
use crate::bits::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "mrw-packed", class: "packed", cams: is_mrw, build: |s, c| mrw(s, c, true), heavy: false },
  Kind { name: "mrw-unpacked", class: "packed", cams: is_mrw, build: |s, c| mrw(s, c, false), heavy: false },
  Kind { name: "mef", class: "packed", cams: |c| c.make == "Mamiya-OP Co.,Ltd.", build: mef, heavy: false },
  Kind { name: "erf", class: "packed", cams: |c| c.make == "SEIKO EPSON CORP.", build: erf, heavy: false },
  Kind { name: "kdc", class: "packed", cams: |c| c.make == "EASTMAN KODAK COMPANY", build: kdc, heavy: false },
  Kind { name: "dcs", class: "curve", cams: |c| c.make == "KODAK", build: dcs, heavy: false },
  Kind { name: "dcr", class: "curve", cams: |c| c.make == "Kodak" && c.model != "DCS560C", build: dcr, heavy: false },
  Kind { name: "ari", class: "packed", cams: |c| c.make == "ARRI", build: ari, heavy: false },
  Kind { name: "naked", class: "packed", cams: |c| c.filesize > 0, build: naked, heavy: true },
];

fn is_mrw(c: &Cam) -> bool { c.make == "Minolta Co., Ltd." || c.make == "KONICA MINOLTA" || c.make == "Konica Minolta Camera, Inc." }

fn mrw(s: &Spec, c: &Cam, packed: bool) -> Sample {
  let (w, h) = dims(s, c, if packed { 2 } else { 1 }, 1);
  let mut rng = Rng::new(s.lay.seed as u64);
  let d = s.pix.gen(w * h, w, 4095);
  let mut blocks: Vec<Vec<u8>> = vec![];
  let blk = |tag: u32, body: Vec<u8>| { let mut b = tag.to_be_bytes().to_vec(); b.extend((body.len() as u32).to_be_bytes()); b.extend(body); b };
  let mut prd = rng.bytes(8);
  prd.extend((h as u16).to_be_bytes());
  prd.extend((w as u16).to_be_bytes());
  prd.extend(((h / 2) as u16).to_be_bytes());
  prd.extend(((w / 2) as u16).to_be_bytes());
  prd.push(if packed { 12 } else { 16 });
  prd.extend(rng.bytes(7));
  blocks.push(blk(0x505244, prd));
  let mut wbg = rng.bytes(4);
  for v in s.wb { wbg.extend(v.to_be_bytes()) }
  blocks.push(blk(0x574247, wbg));
  let mut t = Tiff::new(&Layout { be: true, ..s.lay.clone() });
  t.root_at_8 = true;
  let root = t.ifd(id_entries(c, s.orient));
  let (tb, _) = t.build(root);
  blocks.push(blk(0x545457, tb));
  if s.opt[0] & 1 == 1 { let n = rng.below(40) as usize; blocks.push(blk(0x524946, rng.bytes(n))) }
  if s.lay.seed != 0 { for i in (1..blocks.len()).rev() { let j = rng.below(i as u64 + 1) as usize; blocks.swap(i, j) } }
  // padding block, as the cameras write it
  let n = 24 + s.lay.pad as usize;
  blocks.push(blk(0x504144, rng.bytes(n)));
  let body: Vec<u8> = blocks.concat();
  let mut bytes = b"\0MRM".to_vec();
  bytes.extend((body.len() as u32).to_be_bytes());
  bytes.extend(body);
  if packed { bytes.extend(pk::msb(&d, w, 12, 0)) }
  else { let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16) << 12).collect(); bytes.extend(pk::u16s(&up, true)) }
  bytes.extend(rng.bytes(s.lay.tail as usize));
  let f = |i: usize| s.wb[i] as f32;
  let wb = if c.hint("swapped_wb") { [f(2), f(0), f(1), NAN] } else { [f(0), f(1), f(3), NAN] };
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label: s.kind.clone() }
}

/// a main directory with a preview, and the raw directory in one of the usual places
pub fn two_ifds(t: &mut Tiff, mut main: Vec<(u16, V)>, raw: Vec<(u16, V)>, how: u16) -> usize {
  match how % 3 {
    0 => {
      let r = t.ifd(raw);
      main.push((0x100, V::Num(vec![16])));
      main.push((0x101, V::Num(vec![11])));
      main.push((0x14A, V::Off(vec![(r, 0)])));
      t.ifd(main)
    }
    1 => {
      let r = t.ifd(raw);
      main.push((0x100, V::Num(vec![16])));
      main.push((0x101, V::Num(vec![11])));
      let m = t.ifd(main);
      t.chain(m, r);
      m
    }
    _ => { main.extend(raw); t.ifd(main) }
  }
}

fn mef(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 2, 1);
  let d = s.pix.gen(w * h, w, 4095);
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(pk::msb(&d, w, 12, 0));
  let raw = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)])), (0x828E, V::U8(vec![0, 1, 1, 2]))];
  let root = two_ifds(&mut t, id_entries(c, s.orient), raw, s.opt[0]);
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, [NAN; 4], Data::Exact(d), s.orient), label: format!("mef{}", s.opt[0] % 3) }
}

fn erf(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 2, 1);
  let d = s.pix.gen(w * h, w, 4095);
  let mut rng = Rng::new(s.lay.seed as u64);
  let mut t = Tiff::new(&s.lay);
  // one control byte per ten samples; a trailing group of eight also ends in one
  let mut o = vec![];
  for row in d.chunks(w) {
    for grp in row.chunks(10) {
      o.extend(pk::msb(grp, grp.len(), 12, 0));
      if grp.len() >= 8 { o.push(rng.u64() as u8) }
    }
  }
  let rb = t.blob(o);
  let raw = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)])), (0x828E, V::U8(vec![0, 1, 1, 2]))];
  let be = s.lay.be;
  let mut wbb = rng.bytes(256);
  wbb[48..50].copy_from_slice(&s.wb[0].to_be_bytes());
  wbb[50..52].copy_from_slice(&s.wb[1].to_be_bytes());
  let mut main = id_entries(c, s.orient);
  // makernote directory with absolute offsets: the big value lives at a fixed place
  let at = 32 + 2 * (s.opt[1] as usize % 20);
  t.blob_at(wbb, at);
  let mut mn = b"EPSON\0\x01\0".to_vec();
  mn.extend(p16(be, 1));
  mn.extend(p16(be, 0x0E80)); mn.extend(p16(be, 7)); mn.extend(p32(be, 256)); mn.extend(p32(be, at as u32));
  mn.extend([0; 8]);
  let ml = mn.len() as u32;
  let mo = t.blob(mn);
  let ex = t.ifd(vec![(0x927C, V::At(7, ml, mo))]);
  main.push((0x8769, V::Off(vec![(ex, 0)])));
  let root = two_ifds(&mut t, main, raw, s.opt[0]);
  let (bytes, _) = t.build(root);
  let wb = [s.wb[0] as f32 * 508.0 * 1.078 / 65536.0, 1.0, s.wb[1] as f32 * 382.0 * 1.173 / 65536.0, NAN];
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label: "erf".into() }
}

fn kdc(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 2, 1);
  let (tw, th) = (w as u32, h as u32);
  let (w, h) = (w + 80, h + 70);
  let d = s.pix.gen(w * h, w, 4095);
  let mut rng = Rng::new(s.lay.seed as u64);
  let mut t = Tiff::new(&s.lay);
  let rawbytes = pk::msb(&d, w, 12, 0);
  let hack = c.hint("easyshare_offset_hack");
  let mut offs: Vec<u32> = (0..13 + s.opt[0] as usize % 3).map(|_| rng.u64() as u32 & 0xffff).collect();
  let split = 0x100 + (s.opt[1] as u32 % 0x4000);
  let total = if hack { if s.opt[2] & 1 == 0 { 0x15000 } else { 0x17000 } } else { 0x6000 + 2 * (s.opt[2] as u32 % 0x2000) };
  if hack {
    let t = match (s.opt[2] & 1, s.opt[3] % 4) { (0, 0) => 0x14fff, (0, _) => 0x8000 + s.opt[3] as u32 % 0xd000, (_, 0) => 0x15000, _ => 0x15000 + s.opt[3] as u32 };
    offs[4] = t - split; offs[12] = split;
  } else {
    offs[4] = total - split; offs[12] = split;
  }
  t.blob_at(rawbytes, total as usize);
  let mut k = vec![(0xFD00, V::Num(vec![tw])), (0xFD01, V::Num(vec![th])), (0xFD04, V::U32(offs))];
  let wb;
  if s.opt[4] & 1 == 0 {
    if s.opt[4] & 2 == 0 {
      k.push((0xFA2A, V::Num(s.wb[..3].iter().map(|&v| v as u32).collect())));
      wb = [s.wb[0] as f32, s.wb[1] as f32, s.wb[2] as f32, NAN];
    } else {
      k.push((0xFA2A, V::Rat(s.wb[..3].iter().map(|&v| (v as u32, 256)).collect())));
      wb = [s.wb[0] as f32 / 256.0, s.wb[1] as f32 / 256.0, s.wb[2] as f32 / 256.0, NAN];
    }
  } else {
    let n = if s.opt[4] & 2 == 0 { 734 } else { 1502 };
    let mut b = rng.bytes(n);
    b[148..150].copy_from_slice(&s.wb[0].to_be_bytes());
    b[150..152].copy_from_slice(&s.wb[1].to_be_bytes());
    k.push((0x0F00, V::Undef(b)));
    wb = [s.wb[0] as f32 / 256.0, 1.0, s.wb[1] as f32 / 256.0, NAN];
  }
  let mut main = id_entries(c, s.orient);
  let ki = t.ifd(k);
  main.push((0xFE00, V::Off(vec![(ki, 0)])));
  let root = t.ifd(main);
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label: format!("kdc{}-wb{}", if hack { "-hack" } else { "" }, s.opt[4] & 3) }
}

/// a non-decreasing curve of n entries with generated steps
pub fn gen_curve(n: usize, maxstep: u64, seed: u64) -> Vec<u16> {
  let mut r = Rng::new(seed);
  let mut v = r.below(40);
  if r.below(3) == 0 { v = 0 }
  let mut o = vec![];
  let style = r.below(3);
  for i in 0..n {
    o.push(v.min(65535) as u16);
    if style == 2 && r.below(n as u64 * 8) == 0 { v = 65535 }
    v += match style { 0 => maxstep, 1 => 1 + r.below(maxstep), _ => 1 + (i as u64 * maxstep / n as u64) };
  }
  o
}

fn dcs(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 1, 1);
  let w = w + 1000;
  let d = s.pix.gen(w * h, w, 255);
  let curve = gen_curve(256, 250, s.opt[0] as u64);
  let mut t = Tiff::new(&s.lay);
  let mut b: Vec<u8> = d.iter().map(|&v| v as u8).collect();
  b.extend([0; 4]);
  let rb = t.blob(b);
  let pb = t.blob(vec![0xAA; 64]);
  let raw = t.ifd(vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)]))]);
  let mut main = id_entries(c, s.orient);
  main.extend(vec![(0x100, V::Num(vec![1000])), (0x101, V::Num(vec![11])), (0x111, V::Off(vec![(pb, 0)])),
    (0x123, V::Num(curve.iter().map(|&x| x as u32).collect())), (0x14A, V::Off(vec![(raw, 0)]))]);
  let root = t.ifd(main);
  let (bytes, _) = t.build(root);
  let (lo, hi) = d.iter().map(|&v| curve_bounds(&curve, v as usize)).unzip();
  Sample { bytes, exp: Expect::from_cam(c, w, h, [NAN; 4], Data::Range(lo, hi), s.orient), label: "dcs".into() }
}

fn dcr_segment(vals: &[i32], o: &mut Vec<u8>) {
  // lengths as nibbles, then the differences LSB first in big-endian 16-bit words
  let n = vals.len();
  let mut lens = vec![];
  let mut prev = [0i32; 2];
  let mut diffs = vec![];
  for (i, &v) in vals.iter().enumerate() {
    let d = v - prev[i & 1];
    prev[i & 1] = v;
    let mut l = 0;
    while (d.abs() >> l) != 0 { l += 1 }
    assert!(l <= 15);
    lens.push(l as u32);
    diffs.push(if d >= 0 { d as u32 } else { (d + (1 << l) - 1) as u32 });
  }
  for p in lens.chunks(2) { o.push((p[0] | p.get(1).unwrap_or(&0) << 4) as u8) }
  let mut b = Lsb::new();
  let mut total = 0;
  for (l, d) in lens.iter().zip(&diffs) { b.put(*d, *l); total += l }
  let mut bits = if n & 7 == 4 { 16 } else { 0 };
  while bits < total { bits += 32 }
  let mut by = b.finish();
  by.resize(bits as usize / 8, 0);
  for w in by.chunks(2) { o.push(w[1]); o.push(w[0]) }
}

fn dcr(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 2, 1);
  let n = [256usize, 1024, 4096, 4095][s.opt[0] as usize % 4];
  let curve = gen_curve(n, (65000 / n) as u64, s.opt[1] as u64);
  let d = s.pix.gen(w * h, w, n as u16 - 1);
  let mut rng = Rng::new(s.lay.seed as u64);
  let mut o = vec![];
  for row in d.chunks(w) { for seg in row.chunks(256) { let v: Vec<i32> = seg.iter().map(|&x| x as i32).collect(); dcr_segment(&v, &mut o) } }
  o.extend(rng.bytes(8));
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(o);
  let raw = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)])), (0x828E, V::U8(vec![0, 1, 1, 2]))];
  let short = s.opt[2] % 4 == 0;
  let mut wbb = rng.bytes(if short { 40 } else { 46 + s.opt[3] as usize % 30 });
  if !short { for i in 0..3 { wbb[40 + 2 * i..42 + 2 * i].copy_from_slice(&s.wb[i].to_be_bytes()) } }
  let ki = t.ifd(vec![(0x03FD, V::Undef(wbb)), (0x090D, V::Num(curve.iter().map(|&x| x as u32).collect()))]);
  let mut main = id_entries(c, s.orient);
  main.push((0x8290, V::Off(vec![(ki, 0)])));
  let root = two_ifds(&mut t, main, raw, s.opt[4]);
  let (bytes, _) = t.build(root);
  let (lo, hi) = d.iter().map(|&v| curve_bounds(&curve, v as usize)).unzip();
  let wb = if short { [NAN; 4] } else { [2048.0 / s.wb[0] as f32, 2048.0 / s.wb[1] as f32, 2048.0 / s.wb[2] as f32, NAN] };
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Range(lo, hi), s.orient), label: format!("dcr{}", if short { "-nowb" } else { "" }) }
}

fn ari(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 8, 1);
  let d = s.pix.gen(w * h, w, 4095);
  let mut rng = Rng::new(s.lay.seed as u64);
  let off = 900 + 4 * s.lay.pad as usize;
  let mut b = rng.bytes(off);
  b[0..4].copy_from_slice(b"ARRI");
  b[8..12].copy_from_slice(&(off as u32).to_le_bytes());
  b[20..24].copy_from_slice(&(w as u32).to_le_bytes());
  b[24..28].copy_from_slice(&(h as u32).to_le_bytes());
  let f: Vec<f32> = s.wb.iter().map(|&v| v as f32 / 977.0).collect();
  for i in 0..3 { b[100 + 4 * i..104 + 4 * i].copy_from_slice(&f[i].to_le_bytes()) }
  b[668..668 + c.model.len()].copy_from_slice(c.model.as_bytes());
  b[668 + c.model.len()] = 0;
  b.extend(pk::msb_swapped(&d, 12, 4));
  b.extend(rng.bytes(s.lay.tail as usize));
  Sample { bytes: b, exp: Expect::from_cam(c, w, h, [f[0], f[1], f[2], NAN], Data::Exact(d), 0), label: "ari".into() }
}

fn naked(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = (c.raw_width, c.raw_height);
  let bits = c.filesize * 8 / w / h;
  let aligned = c.hint("12le_16bitaligned");
  let max = if aligned || bits == 12 { 4095 } else { 1023 };
  let mut d = s.pix.gen(w * h, w, max);
  // not the start of any container signature
  d[0] = max; d[1] = max; d[2] = max; d[3] = max;
  let mut b = if aligned { pk::msb(&d, w, 12, 2) } else { pk::msb_swapped(&d, bits as u32, 2) };
  assert!(b.len() <= c.filesize + 2, "{} {} {}", c.model, b.len(), c.filesize);
  b.resize(c.filesize, 0x5a);
  Sample { bytes: b, exp: Expect::from_cam(c, w, h, [NAN; 4], Data::Exact(d), 0), label: format!("naked-{}{}", bits, if aligned { "a" } else { "" }) }
}
