use super::packed_ref as pk;
use super::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "rw2-unpacked", class: "packed", cams: pana, build: |s, c| rw2(s, c, 0), heavy: false },
  Kind { name: "rw2-control", class: "packed", cams: pana, build: |s, c| rw2(s, c, 1), heavy: false },
  Kind { name: "rw2-v1", class: "vendor", cams: pana, build: |s, c| rw2(s, c, 2), heavy: true },
  Kind { name: "rw2-split", class: "vendor", cams: pana, build: |s, c| rw2(s, c, 3), heavy: false },
  Kind { name: "raf", class: "packed", cams: |c| fuji(c) && !c.hint("fuji_rotation") && !c.hint("fuji_rotation_alt"), build: raf, heavy: false },
  Kind { name: "raf-rotated", class: "packed", cams: |c| fuji(c) && (c.hint("fuji_rotation") || c.hint("fuji_rotation_alt")), build: raf, heavy: false },
];
fn pana(c: &Cam) -> bool { (c.make == "Panasonic" || c.make == "LEICA") && !c.mode.is_empty() }
fn fuji(c: &Cam) -> bool { c.make == "FUJIFILM" && c.mode.is_empty() }

fn mode_of(w: usize, h: usize) -> &'static str {
  let r = w * 100 / h;
  if r < 125 { "1:1" } else if r < 145 { "4:3" } else if r < 165 { "3:2" } else { "16:9" }
}

/// Sixteen-byte packets of fourteen samples; each packet is read from its top bit downwards.
/// Returns the packet fields as (value, bits) in reading order and the samples they mean.
fn packet(rng: &mut Rng, style: u8) -> (Vec<(u32, u32)>, [u16; 14]) {
  let mut f = vec![];
  let mut out = [0u16; 14];
  let mut pred = [0i32; 2];
  let mut nonz = [false; 2];
  let mut sh = 0;
  for i in 0..14 {
    let k = i & 1;
    if i % 3 == 2 { let c = rng.below(4) as u32; f.push((c, 2)); sh = [0, 1, 2, 4][c as usize]; }
    let byte = match style % 4 { 0 => 0, 1 => rng.below(256), 2 => if rng.bool() { 0 } else { rng.below(256) }, _ => 0x78 + rng.below(16) } as u32;
    f.push((byte, 8));
    if nonz[k] {
      if byte != 0 {
        let t = pred[k] - (0x80 << sh);
        // a negative base, and always at the coarsest step, keeps only the low bits
        pred[k] = if t < 0 || sh == 4 { t.rem_euclid(1 << sh) } else { t } + ((byte as i32) << sh);
      }
    } else {
      nonz[k] = byte != 0;
      if byte != 0 || i > 11 { let lo = rng.below(16) as u32; f.push((lo, 4)); pred[k] = (byte << 4 | lo) as i32 }
    }
    out[i] = pred[k] as u16;
  }
  assert_eq!(f.iter().map(|x| x.1).sum::<u32>(), 128);
  (f, out)
}

fn panasonic(w: usize, h: usize, split: bool, style: u8, rng: &mut Rng) -> (Vec<u8>, Vec<u16>) {
  let mut d = vec![];
  let mut file = vec![];
  let groups = w * h / 14;
  for blk in 0..(groups + 1023) / 1024 {
    let mut bits = vec![0u8; 0x4000];
    let mut p = 0x20000usize;
    for _ in blk * 1024..groups.min(blk * 1024 + 1024) {
      let (f, px) = packet(rng, style);
      d.extend(px);
      for (v, n) in f { p -= n as usize; for b in 0..n as usize { if v >> b & 1 == 1 { bits[(p + b) >> 3] |= 1 << ((p + b) & 7) } } }
    }
    // packets in ascending order, bytes inside a packet as they are
    let mut buf = vec![0u8; 0x4000];
    for l in 0..0x4000 { buf[l ^ 0x3ff0] = bits[l] }
    if split { file.extend(&buf[0x2008..]); file.extend(&buf[..0x2008]) } else { file.extend(buf) }
  }
  (file, d)
}

fn rw2(s: &Spec, c: &Cam, what: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x2A2);
  let (wu, minpx) = match what { 0 => (1, 1), 1 => (2, 400), 2 => (14, 56000), _ => (14, 1) };
  let (mut w, _) = dims(s, c, wu, 1);
  let (_, mh) = min_dims(c);
  // the usual proportions, the first and last of the class, or some other of it
  let (usual, lo, hi) = match c.mode.as_str() { "1:1" => (100, 70, 124), "4:3" => (133, 125, 144), "3:2" => (150, 145, 164), _ => (178, 165, 240) };
  let k = s.opt[3] as usize;
  let r = match k % 4 { 0 => lo, 1 => hi, 2 => lo + k / 4 % (hi - lo + 1), _ => usual };
  let h = loop {
    let h = (w * 100 / r).max(1);
    if h >= mh && w * h >= minpx && mode_of(w, h) == c.mode { break h }
    w += wu;
  };
  let (raw, d) = match what {
    0 => {
      let d = s.pix.gen(w * h, w, 4095);
      let up: Vec<u16> = d.iter().map(|v| v << 4 | (rng.u64() & 15) as u16).collect();
      (pk::u16s(&up, false), d)
    }
    1 => {
      let d = s.pix.gen(w * h, w, 4095);
      let mut o = vec![];
      for row in d.chunks(w) { for g in row.chunks(10) { o.extend(pk::lsb12(g, g.len())); if g.len() >= 8 { o.push(rng.u64() as u8) } } }
      (o, d)
    }
    v => panasonic(w, h, v == 3, s.pix.style, &mut rng),
  };
  let mut lay = s.lay.clone();
  lay.be = lay.be && what != 9;
  if what == 1 || what == 2 { lay.tail = 0 }
  let mut t = Tiff::new(&lay);
  let rb = t.blob(raw);
  if what != 3 { t.put_last(rb) }
  let mut ents = id_entries(c, s.orient);
  let (tw, th) = (w as u32, h as u32);
  let off = if what == 3 { 0x118 } else { 0x111 };
  let wbe = |v: &mut Vec<(u16, V)>| -> [f32; 4] {
    let f = [s.wb[0] as f32, s.wb[1] as f32, s.wb[2] as f32, NAN];
    if s.opt[1] & 1 == 0 {
      v.push((0x11, V::Num(vec![s.wb[0] as u32]))); v.push((0x12, V::Num(vec![s.wb[2] as u32])));
      // the other form next to it does not count
      if s.opt[1] & 2 == 0 { for t in [0x24u16, 0x25, 0x26] { if t != 0x25 || s.opt[1] & 4 == 0 { v.push((t, V::Num(vec![s.wb[3] as u32]))) } } }
      [f[0], 256.0, f[2], NAN]
    } else {
      for (k, t) in [0x24u16, 0x25, 0x26].iter().enumerate() { v.push((*t, V::Num(vec![s.wb[k] as u32]))) }
      f
    }
  };
  let wb;
  let raws = vec![(0x2, V::Num(vec![tw])), (0x3, V::Num(vec![th])), (off, V::Off(vec![(rb, 0)]))];
  if what == 3 && s.opt[2] & 1 == 1 {
    // a strip offset next to the raw offset does not count
    ents.push((0x111, V::Num(vec![0xffff_ffff])));
  }
  let root = if s.opt[0] & 1 == 0 {
    ents.extend(raws);
    wb = wbe(&mut ents);
    t.ifd(ents)
  } else {
    let mut raws = raws;
    wb = wbe(&mut raws);
    let r = t.ifd(raws);
    ents.push((0x14A, V::Off(vec![(r, 0)])));
    t.ifd(ents)
  };
  let (bytes, _) = t.build_with(root, if lay.be { b"MM\0U" } else { b"IIU\0" });
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label: format!("{}-{}", s.kind, c.mode) }
}

fn raf(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xFA);
  let (rot, alt) = (c.hint("fuji_rotation"), c.hint("fuji_rotation_alt"));
  let (mut w, mut h) = dims(s, c, if c.hint("jpeg32") { 8 } else { 2 }, 1);
  let cr = c.crops;
  if rot || alt {
    w = (s.w as usize).max(1) * 2 + cr[1] + cr[3];
    h = (s.h as usize).max(1) * 2 + cr[0] + cr[2];
    // odd sizes where the rotation direction has room for them
    if rot && s.opt[2] & 1 == 1 { w += 1 }
    if alt && s.opt[2] & 1 == 1 { h += 1 }
  }
  let direct = s.opt[0] & 1 == 0;
  let mut bps = if direct { 16 } else { [12, 14, 16, 0][s.opt[1] as usize % 4] };
  if bps == 12 && w % 2 == 1 { bps = 14 }
  let dw = c.hint("double_width");
  let j32 = c.hint("jpeg32");
  let max = if dw { 65535 } else if j32 { 4095 } else { match bps { 12 => 4095, 14 => 16383, _ => 65535 } };
  let mut d = s.pix.gen(w * h, w, max);
  // must not look like the start of a TIFF
  if direct { d[0] &= 0x0fff; if d[0] & 0xff == d[0] >> 8 { d[0] ^= 1 } }
  if direct && j32 { for v in d.iter_mut().take(3) { *v = 0xabc } }
  let raw = if dw {
    let mut o = vec![];
    for row in d.chunks(w) { o.extend(pk::u16s(row, false)); o.extend(rng.bytes(w * 2)) }
    o
  } else if j32 { pk::msb_swapped(&d, 12, 4) } else {
    match bps {
      12 => pk::lsb12(&d, w),
      14 => { let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16) << 14).collect(); pk::u16s(&up, false) }
      _ => pk::u16s(&d, s.lay.be),
    }
  };
  // the compression test wants enough bytes for the nominal depth
  let mut raw = raw;
  let need = if bps == 0 { 16 } else { bps } * w * h / 8;
  if !dw && !j32 { assert!(raw.len() >= need) }
  // three parts: camera preview with Exif, settings directory, raw
  let mut t = Tiff::new(&s.lay);
  let mut ids = id_entries(c, s.orient);
  if s.opt[3] & 1 == 1 { let ex = t.ifd(vec![(0x9003, V::Str("2001:01:01 00:00:00".into()))]); ids.push((0x8769, V::Off(vec![(ex, 0)]))) }
  let root = t.ifd(ids);
  let (exif, _) = t.build(root);
  let f = |i: usize| s.wb[i] as f32;
  let oldwb = direct || s.opt[4] & 1 == 0;
  let mut dir: Vec<(u16, Vec<u8>)> = vec![];
  if direct || s.opt[4] & 2 == 0 {
    let mut x = (h as u16).to_be_bytes().to_vec();
    x.extend((w as u16).to_be_bytes());
    dir.push((0x100, x));
  }
  if oldwb { dir.push((0x2ff0, [s.wb[1], s.wb[0], s.wb[3], s.wb[2]].iter().flat_map(|v| v.to_be_bytes()).collect())) }
  for k in 0..s.opt[5] % 4 { let n = 2 + 2 * rng.below(10) as usize; dir.push((0x110 + k, rng.bytes(n))) }
  if s.lay.seed != 0 { for i in (1..dir.len()).rev() { let j = rng.below(i as u64 + 1) as usize; dir.swap(i, j) } }
  let mut db = (dir.len() as u32).to_be_bytes().to_vec();
  for (t, x) in &dir { db.extend(t.to_be_bytes()); db.extend((x.len() as u16).to_be_bytes()); db.extend(x) }
  let rawpart = if direct { raw.extend(rng.bytes(s.lay.tail as usize)); raw } else {
    let mut t = Tiff::new(&Layout { be: s.opt[3] & 2 == 0, seed: s.lay.seed ^ 5, ..s.lay.clone() });
    let rb = t.blob(raw);
    let mut e = vec![(0xF001, V::Num(vec![w as u32])), (0xF002, V::Num(vec![h as u32])), (0xF007, V::Off(vec![(rb, 0)]))];
    if bps != 0 { e.push((0xF003, V::Num(vec![bps as u32]))) }
    if !oldwb { e.push((0xF00E, V::Num(vec![s.wb[1] as u32, s.wb[0] as u32, s.wb[2] as u32]))) }
    let sub = t.ifd(e);
    let r = t.ifd(vec![(0xF000, V::Off(vec![(sub, 0)]))]);
    t.build(r).0
  };
  let mut o = b"FUJIFILMCCD-RAW 0201FF119905".to_vec();
  o.extend(rng.bytes(108 - o.len() + 40));
  let mut parts: Vec<(usize, Vec<u8>)> = vec![(84, [vec![0xff, 0xd8, 0xff, 0xe1, 1, 0, b'E', b'x', b'i', b'f', 0, 0], exif].concat()), (92, db), (100, rawpart)];
  if s.lay.seed & 1 == 1 { parts.swap(0, 1) }
  for (at, b) in parts {
    o.extend(rng.bytes(s.lay.pad as usize));
    let p = o.len() as u32;
    o[at..at + 4].copy_from_slice(&p.to_be_bytes());
    o.extend(b);
  }
  let (mut ow, mut oh, mut od) = (w, h, d);
  if rot || alt {
    let (cw, ch) = (w - cr[1] - cr[3], h - cr[0] - cr[2]);
    ow = if alt { ch + cw / 2 } else { cw + ch / 2 };
    oh = ow - 1;
    let mut x = vec![0u16; ow * oh];
    // each sensor sample lands on one cell of a grid turned by 45 degrees
    for r in 0..ch { for k in 0..cw {
      let (a, b) = if alt { (ow + r - ch - 1 - k / 2, (k + 1) / 2 + r) } else { (cw - 1 - k + r / 2, (r + 1) / 2 + k) };
      x[a * ow + b] = od[(r + cr[0]) * w + cr[3] + k];
    } }
    od = x;
  }
  let mut exp = Expect::from_cam(c, ow, oh, [f(0), f(1), f(2), NAN], Data::Exact(od), s.orient);
  if rot || alt { exp.crops = [0; 4]; exp.black = Black::Fixed([c.black as u16; 4]) }
  Sample { bytes: o, exp, label: format!("{}{}-{}", s.kind, if alt { "-alt" } else { "" }, if dw { "dw".into() } else if j32 { "j32".into() } else { format!("{}{}", bps, if direct { "d" } else { "" }) }) }
}
