use super::*;
use super::packed_ref as pk;
use crate::bits::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "orf-unpacked", class: "packed", cams: is, build: |s, c| orf(s, c, 0), heavy: false },
  Kind { name: "orf-wcontrol", class: "packed", cams: is, build: |s, c| orf(s, c, 1), heavy: false },
  Kind { name: "orf-interlaced", class: "packed", cams: is, build: |s, c| orf(s, c, 2), heavy: false },
  Kind { name: "orf-msb32", class: "packed", cams: is, build: |s, c| orf(s, c, 3), heavy: true },
  Kind { name: "orf-compressed", class: "vendor", cams: is, build: |s, c| orf(s, c, 4), heavy: false },
];
fn is(c: &Cam) -> bool { c.make.starts_with("OLYMPUS") && c.mode.is_empty() }

fn orf(s: &Spec, c: &Cam, variant: u32) -> Sample {
  let (mut w, mut h) = dims(s, c, match variant { 1 => 10, 0 => 1, _ => 2 }, 1);
  let mut rng = Rng::new(s.lay.seed as u64);
  if variant == 2 { w = w.min(3498); if w * h < 160 { h = 160 / w + 1 } }
  if variant == 3 { w = 3504 + 8 * (s.w as usize % 40); h = h.min(6).max(min_dims(c).1); }
  if variant == 4 { if w * h < 40 { h = 40 / w + 1 } }
  let data = s.pix.gen(w * h, w, 4095);
  let (mut raw, size) = match variant {
    0 => {
      let sh: Vec<u16> = data.iter().map(|v| v << 4 | (rng.u64() & 15) as u16).collect();
      (pk::u16s(&sh, s.lay.be), w * h * 2 + (s.opt[0] % 3) as usize * 64)
    }
    1 => (pk::control12(&data, w, false, s.opt[0] as u8), w / 10 * 16 * h),
    2 => (pk::interlaced12(&data, w, h, |n| ((n >> 11) + 1) << 11, s.opt[0] as u8), w * h * 3 / 2),
    3 => (pk::msb_swapped(&data, 12, 4), w * h * 3 / 2),
    _ => { let b = compress(&data, w, h, &mut rng); (b, 0) }
  };
  let size = if variant == 4 { (w * h).min(w * h * 12 / 8 - 1).min((w * h / 10 * 16).saturating_sub(1)) } else { size };
  raw.extend(rng.bytes(16));
  let lay = &s.lay;
  let mut t = Tiff::new(lay);
  let rb = t.blob(raw);
  let (a, b) = (s.wb[0], s.wb[1]);
  let be = lay.be;
  let mut ents = id_entries(c, s.orient);
  ents.extend(vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x111, V::Off(vec![(rb, 0)]))]);
  // the strip sizes may be split over several entries
  let n = 1 + s.opt[1] as usize % 4;
  let each = size / n;
  let mut cnt: Vec<u32> = vec![each as u32; n];
  cnt[0] += (size - each * n) as u32;
  ents.push((0x117, V::Num(cnt)));
  // makernote
  let mut mn: Vec<u8> = vec![];
  let wbkind = s.opt[2] % 4;
  if wbkind == 0 { mn.extend(b"OLYMP\0\x01\0"); } else { mn.extend(b"OLYMPUS\0"); mn.extend(if be { b"MM" } else { b"II" }); mn.extend(&[3, 0]); }
  let ent = |o: &mut Vec<u8>, tag: u16, typ: u16, count: u32, val: [u8; 4]| { o.extend(p16(be, tag)); o.extend(p16(be, typ)); o.extend(p32(be, count)); o.extend(val) };
  let two = |x: u16, y: u16| { let p = p16(be, x); let q = p16(be, y); [p[0], p[1], q[0], q[1]] };
  if wbkind < 2 {
    mn.extend(p16(be, 2));
    ent(&mut mn, 0x1017, 3, 2, two(a, 64));
    ent(&mut mn, 0x1018, 3, 2, two(b, 64));
    mn.extend(p32(be, 0));
  } else {
    // image processing directory relative to the makernote start
    mn.extend(p16(be, 1));
    let rel = 12 + 2 + 12 + 4 + (s.opt[3] as usize % 5) * 2;
    ent(&mut mn, 0x2040, if s.opt[4] & 1 == 1 { 13 } else { 4 }, 1, p32(be, rel as u32));
    mn.extend(p32(be, 0));
    mn.resize(rel, 0);
    mn.extend(p16(be, 1));
    if wbkind == 2 {
      ent(&mut mn, 0x0100, 3, 2, two(a, b));
      mn.extend(p32(be, 0));
    } else {
      let d = rel + 2 + 12 + 4 + (s.opt[5] as usize % 5) * 2;
      ent(&mut mn, 0x0100, 3, 4, p32(be, d as u32));
      mn.extend(p32(be, 0));
      mn.resize(d, 0);
      for v in [a, b, 256, 256] { mn.extend(p16(be, v)) }
    }
  }
  mn.extend([0; 8]);
  let ml = mn.len() as u32;
  let mo = t.blob(mn);
  let root;
  if s.opt[4] & 2 == 0 {
    let ex = t.ifd(vec![(0x927C, V::At(7, ml, mo))]);
    ents.push((0x8769, V::Off(vec![(ex, 0)])));
    root = t.ifd(ents);
  } else {
    ents.push((0x927C, V::At(7, ml, mo)));
    root = t.ifd(ents);
  }
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, [a as f32, 256.0, b as f32, NAN], Data::Exact(data), s.orient), label: format!("{}-wb{}{}", s.kind, wbkind, if be { "-mm" } else { "" }) }
}

fn compress(d: &[u16], w: usize, h: usize, rng: &mut Rng) -> Vec<u8> {
  let mut b = Msb::new();
  for x in rng.bytes(7) { b.put(x as u32, 8) }
  let at = |r: usize, c: usize| d[r * w + c] as i32;
  for row in 0..h {
    let mut carry = [[0i32; 3]; 2];
    for col in 0..w {
      let s = col & 1;
      // prediction from the pixels two to the left, two up, and two up-left
      let pred = if row < 2 && col < 2 { 0 }
        else if row < 2 { at(row, col - 2) }
        else if col < 2 { at(row - 2, col) }
        else {
          let (l, u, nw) = (at(row, col - 2), at(row - 2, col), at(row - 2, col - 2));
          if (l < nw && nw < u) || (u < nw && nw < l) {
            if (l - nw).abs() > 32 || (u - nw).abs() > 32 { l + u - nw } else { (l + u) >> 1 }
          } else if (l - nw).abs() > (u - nw).abs() { l } else { u }
        };
      let delta = at(row, col) - pred;
      let low = delta & 3;
      let t = (delta >> 2) - carry[s][1];
      let (sign, mag) = if t < 0 { (1, -t - 1) } else { (0, t) };
      let i = if carry[s][2] < 3 { 2 } else { 0 };
      let mut nbits = 2 + i;
      while (carry[s][0] >> (nbits + i)) & 0xffff > 0 { nbits += 1 }
      let nbits = nbits.min(16);
      let high = mag >> nbits;
      b.put(sign, 1);
      b.put(low as u32, 2);
      if high < 12 {
        b.put(0, high as u32);
        b.put(1, 1);
      } else {
        b.put(0, 12);
        b.put((high as u32) << 1 | (rng.u64() & 1) as u32, 16 - nbits as u32);
      }
      b.put(mag as u32 & ((1u32 << nbits) - 1), nbits as u32);
      carry[s][0] = mag;
      let diff = delta >> 2;
      carry[s][1] = (diff * 3 + carry[s][1]) >> 5;
      carry[s][2] = if mag > 16 { 0 } else { carry[s][2] + 1 };
    }
  }
  b.finish()
}
