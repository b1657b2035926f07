use super::*;
use super::packed_ref as pk;
use crate::bits::*;
use crate::ljpegw::Huff;

pub static KINDS: &[Kind] = &[
  Kind { name: "pef-16", class: "packed", cams: is, build: |s, c| pef(s, c, 0), heavy: false },
  Kind { name: "pef-12", class: "packed", cams: is, build: |s, c| pef(s, c, 1), heavy: false },
  Kind { name: "pef-huffman", class: "vendor", cams: is, build: |s, c| pef(s, c, 2), heavy: false },
];
fn is(c: &Cam) -> bool { (c.make == "PENTAX Corporation" || c.make == "PENTAX" || c.make.starts_with("RICOH")) && c.mode.is_empty() }

/// a directory at `pos` of a block whose offsets count from the block's start
pub fn mini_ifd(prefix: &[u8], be: bool, base: usize, ents: &[(u16, u16, u32, Vec<u8>)]) -> Vec<u8> {
  let mut o = prefix.to_vec();
  o.extend(p16(be, ents.len() as u16));
  let mut data_at = o.len() + 12 * ents.len() + 4;
  let mut tail: Vec<u8> = vec![];
  for (tag, typ, n, d) in ents {
    o.extend(p16(be, *tag)); o.extend(p16(be, *typ)); o.extend(p32(be, *n));
    if d.len() <= 4 { let mut v = d.clone(); v.resize(4, 0); o.extend(v) }
    else { o.extend(p32(be, (base + data_at) as u32)); data_at += d.len(); tail.extend(d) }
  }
  o.extend(p32(be, 0));
  o.extend(tail);
  o
}

fn pef(s: &Spec, c: &Cam, what: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x9EF);
  let (w, h) = dims(s, c, if what == 0 { 1 } else { 2 }, 1);
  let be = s.lay.be;
  let mut label = s.kind.clone();
  let mut ents: Vec<(u16, u16, u32, Vec<u8>)> = vec![];
  let sh = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|x| p16(be, *x)).collect() };
  ents.push((0x201, 3, 4, sh(&[s.wb[0], s.wb[1], s.opt[3], s.wb[2]])));
  let wb = [s.wb[0] as f32, s.wb[1] as f32, s.wb[2] as f32, NAN];
  let blacks = if s.opt[4] % 3 == 0 { None } else { Some([s.opt[3] as u16 % 2048, s.opt[2] as u16 % 2048, s.wb[3] % 2048, (s.lay.seed % 2048) as u16]) };
  if let Some(b) = blacks { ents.push((0x200, 3, 4, sh(&b))) }
  let d;
  let (raw, comp) = match what {
    0 => { d = s.pix.gen(w * h, w, 65535); (pk::u16s(&d, true), 1) }
    1 => { d = s.pix.gen(w * h, w, 4095); (pk::msb(&d, w, 12, 0), 32773) }
    _ => {
      let (huff, bits) = if s.opt[1] & 1 == 0 {
        label += "-builtin";
        let counts = [0u32, 2, 3, 1, 1, 1, 1, 1, 1, 2];
        let vals = [3u8, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
        let mut order = vec![];
        let mut k = 0;
        for (l, &n) in counts.iter().enumerate() { for _ in 0..n { order.push((vals[k], l as u32 + 1)); k += 1 } }
        (Huff::canonical(&order), 12)
      } else {
        let depth = match s.opt[1] / 2 % 16 { k @ 0..=9 => 2 + k as usize, k => 12 + k as usize % 4 };
        label += &format!("-table{}", depth);
        let syms: Vec<u8> = (0..depth as u8).collect();
        let maxlen = 5 + rng.below(8) as u32;
        let t = Huff::random(&syms, maxlen, &mut rng);
        let mut x = p16(be, (depth as u16 + 4) & 15 | (s.opt[2] & 0xf0)).to_vec();
        x.extend(rng.bytes(12));
        for k in 0..depth { let (code, l) = t.code[k].unwrap(); x.extend(p16(be, (code << (12 - l)) as u16)) }
        for k in 0..depth { x.push(t.code[k].unwrap().1 as u8) }
        ents.push((0x220, 7, x.len() as u32, x));
        (t, depth as u32 - 1)
      };
      d = s.pix.gen(w * h, w, ((1u32 << bits.min(14)) - 1) as u16);
      let mut b = Msb::new();
      for y in 0..h { for x in 0..w {
        let p = if x >= 2 { d[y * w + x - 2] } else if y >= 2 { d[(y - 2) * w + x] } else { 0 };
        huff.diff(&mut b, d[y * w + x] as i32 - p as i32, false);
      } }
      let mut o = b.finish();
      o.extend(rng.bytes(8));
      (o, 65535)
    }
  };
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  for i in (1..ents.len()).rev() { let j = rng.below(i as u64 + 1) as usize; ents.swap(i, j) }
  let mut main = id_entries(c, s.orient);
  let rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x103, V::Num(vec![comp])), (0x111, V::Off(vec![(rb, 0)]))];
  let kind = s.opt[5] % 3;
  label += ["-aoc", "-pentax", "-plain"][kind as usize];
  let mn = match kind {
    0 => {
      let mut pre = b"AOC\0".to_vec();
      if s.opt[5] & 8 == 0 { pre.extend(if be { b"MM" } else { b"II" }) }
      // values at absolute offsets: the block sits at a fixed place
      let at = 8;
      let m = mini_ifd(&pre, be, at, &ents);
      let n = m.len() as u32;
      let b = t.blob_at(m, at);
      V::At(7, n, b)
    }
    1 => {
      let mut pre = b"PENTAX \0".to_vec();
      pre.extend(if be { b"MM" } else { b"II" });
      let m = mini_ifd(&pre, be, 0, &ents);
      let n = m.len() as u32;
      let b = t.blob(m);
      V::At(7, n, b)
    }
    _ => {
      let i = t.ifd(ents.iter().map(|(a, b, c, d)| (*a, V::Raw(*b, *c, d.clone()))).collect());
      V::At(7, 20, i)
    }
  };
  let ex = t.ifd(vec![(0x927C, mn)]);
  main.push((0x8769, V::Off(vec![(ex, 0)])));
  let root = super::misc::two_ifds(&mut t, main, rawd, s.opt[0]);
  let (bytes, _) = t.build(root);
  let mut exp = Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient);
  // levels given by the file win over the camera's, unless the camera has masked areas
  if let (Some(b), Black::Fixed(_)) = (blacks, &exp.black) {
    // in the order R, G, G, B; nothing has the fourth colour
    exp.black = Black::Between([(b[0], b[0]), (b[1].min(b[2]), b[1].max(b[2])), (b[3], b[3]), (0, 65535)])
  }
  Sample { bytes, exp, label }
}
