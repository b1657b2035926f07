use super::*;
use super::packed_ref as pk;
use crate::bits::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "srw-unpacked", class: "packed", cams: is, build: |s, c| srw(s, c, 0), heavy: false },
  Kind { name: "srw-packed", class: "packed", cams: is, build: |s, c| srw(s, c, 1), heavy: false },
  Kind { name: "srw1", class: "vendor", cams: is, build: |s, c| srw(s, c, 2), heavy: false },
  Kind { name: "srw2", class: "vendor", cams: is, build: |s, c| srw(s, c, 3), heavy: false },
  Kind { name: "srw3", class: "vendor", cams: is, build: |s, c| srw(s, c, 4), heavy: false },
];
fn is(c: &Cam) -> bool { c.make == "SAMSUNG" && c.mode.is_empty() }

fn sbits(v: i32) -> u32 { let mut l = 0; while !(l > 0 && v >= -(1 << (l - 1)) && v < 1 << (l - 1)) { if v == 0 && l == 0 { return 0 } l += 1 } l }

/// first generation: rows of 16-sample groups with adaptive difference lengths
fn srw1(d: &[u16], w: usize, h: usize, rng: &mut Rng) -> (Vec<u8>, Vec<u32>) {
  // the coded image has the two greens' neighbours exchanged
  let mut c = d.to_vec();
  for y in (0..h).step_by(2) { for x in (0..w).step_by(2) { c.swap(y * w + x + 1, (y + 1) * w + x) } }
  let mut o = vec![];
  let mut offs = vec![];
  for y in 0..h {
    offs.push(o.len() as u32);
    let mut b = Msb::new();
    let mut len = [if y < 2 { 7i32 } else { 4 }; 4];
    for x in (0..w).step_by(16) {
      let up = y >= 2 && rng.bool();
      let pred = |k: usize| -> i32 {
        if up { c[(if k & 1 == 0 { y - 1 } else { y - 2 }) * w + x + k] as i32 }
        else if x == 0 { 128 } else { c[y * w + x - 2 + (k & 1)] as i32 }
      };
      let mut need = [0u32; 4];
      for k in 0..16.min(w - x) { let g = (k & 1) * 2 + (k >> 3); need[g] = need[g].max(sbits(c[y * w + x + k] as i32 - pred(k))) }
      b.put(up as u32, 1);
      let mut ops = [0u32; 4];
      for g in 0..4 {
        let n = need[g] as i32;
        let mut can = vec![3];
        if len[g] >= n { can.push(0) }
        if len[g] + 1 >= n && len[g] < 15 { can.push(1) }
        if len[g] - 1 >= n { can.push(2) }
        ops[g] = can[rng.below(can.len() as u64) as usize];
        b.put(ops[g], 2);
      }
      for g in 0..4 {
        match ops[g] {
          3 => { let n = need[g].max(if rng.bool() { need[g] } else { need[g] + rng.below(16 - need[g].min(15) as u64) as u32 }).min(15); len[g] = n as i32; b.put(n, 4) }
          1 => len[g] += 1,
          2 => len[g] -= 1,
          _ => {}
        }
      }
      for par in 0..2 { for k in (par..16).step_by(2) {
        let g = par * 2 + (k >> 3);
        // the rest of the last group lies outside of the image
        if x + k < w { b.put((c[y * w + x + k] as i32 - pred(k)) as u32, len[g] as u32) } else { b.put(rng.u64() as u32 & ((1 << len[g]) - 1), len[g] as u32) }
      } }
    }
    o.extend(b.finish_le32());
  }
  (o, offs)
}

fn srw2(d: &[u16], w: usize) -> Vec<u8> {
  // (code, code length) per difference length, a fixed prefix code
  let tab = [(3u32, 4usize), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
  let mut code = [(0u32, 0u32); 14];
  let mut n = 0u32;
  for (l, s) in tab { code[s] = (n >> (10 - l), l); n += 1 << (10 - l) }
  let mut b = Msb::new();
  for i in 0..d.len() {
    let (y, x) = (i / w, i % w);
    let p = if x >= 2 { d[i - 2] } else if y >= 2 { d[i - 2 * w] } else { 0 };
    let v = d[i] as i32 - p as i32;
    let n = crate::ljpegw::cat(v);
    b.put(code[n as usize].0, code[n as usize].1);
    if n > 0 { b.put(if v > 0 { v as u32 } else { (v + (1 << n) - 1) as u32 }, n) }
  }
  b.finish()
}

/// third generation; returns (stream, decoded samples)
fn srw3(s: &Spec, want: &[u16], w: usize, h: usize, depth: u32, rng: &mut Rng) -> (Vec<u8>, Vec<u16>) {
  let flags = s.opt[1] as u32 & 7;
  let (skip, mv, qp) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0);
  let init = rng.below(1 << depth.min(14)) as i32;
  let mut o = {
    let mut b = Msb::new();
    b.put(rng.u64() as u32 & 0xffff, 16); b.put(rng.below(16) as u32, 4);
    b.put(depth - 1, 4); b.put(rng.below(16) as u32, 4); b.put(rng.below(16) as u32, 4);
    b.put(w as u32, 16); b.put(h as u32, 16); b.put(rng.below(65536) as u32, 16); b.put(0, 4);
    b.put(flags | (s.opt[2] as u32 & 8), 4);
    b.put(rng.below(256) as u32, 8); b.put(0, 8); b.put(rng.below(256) as u32, 8); b.put(0, 2); b.put(init as u32, 14);
    b.finish_le32()
  };
  let max = (1i32 << depth) - 1;
  let mut d = vec![0u16; w * h];
  for y in 0..h {
    while o.len() % 16 != 0 { o.push(rng.u64() as u8) }
    let mut b = Msb::new();
    let mut motion = 7usize;
    let mut mode = [[if y < 2 { 7i32 } else { 4 }; 2]; 3];
    for x in (0..w).step_by(16) {
      let mut scale = 0i32;
      if !qp && x & 63 == 0 {
        // scaling only matters inside a single group here
        match if w == 16 { rng.below(4) } else { 0 } {
          1 => { scale = -2; b.put(1, 2) }
          2 => { scale = 2; b.put(2, 2) }
          3 => { let top = if rng.bool() { 5 } else { 4096 }; scale = rng.below(top) as i32; b.put(3, 2); b.put(scale as u32, 12) }
          _ => b.put(0, 2),
        }
      }
      const OFF: [i64; 7] = [-4, -2, -2, 0, 0, 2, 4];
      const AVG: [bool; 7] = [false, false, true, false, true, false, false];
      let refs = |m: usize, k: usize| -> (usize, i64) {
        if (y + k) & 1 != 0 { (y - 2, x as i64 + k as i64 + OFF[m]) }
        else { (y - 1, x as i64 + (k ^ 1) as i64 + OFF[m]) }
      };
      let usable = |m: usize| m == 7 || (y >= 2 && (0..16).all(|k| { let (_, c) = refs(m, k); c >= 0 && c + if AVG[m] { 2 } else { 0 } < w as i64 }));
      let can: Vec<usize> = (0..8).filter(|&m| usable(m) && (!mv || m == 3 || m == 7)).collect();
      let m = if usable(motion) && (!mv || motion == 3 || motion == 7) && rng.bool() { motion } else { can[rng.below(can.len() as u64) as usize] };
      if mv { b.put((m == 3) as u32, 1) }
      else if m == motion && rng.bool() { b.put(1, 1) }
      else { b.put(0, 1); b.put(m as u32, 3) }
      motion = m;
      let mut pred = [0i32; 16];
      for k in 0..16 {
        pred[k] = if m == 7 { if x == 0 { init } else { d[y * w + x + k - if k >= 2 { k - k % 2 + 2 } else { 2 }] as i32 } }
          else {
            let (r, c) = refs(m, k);
            let a = d[r * w + c as usize] as i32;
            if AVG[m] { (a + d[r * w + c as usize + 2] as i32 + 1) >> 1 } else { a }
          };
      }
      // order in which the differences are stored
      let place = |i: usize| if y % 2 != 0 { ((i & 7) << 1) + 1 - (i >> 3) } else { ((i & 7) << 1) + (i >> 3) };
      let mut diff = [0i32; 16];
      let f = scale * 2 + 1;
      for i in 0..16 {
        let want = want[y * w + x + place(i)] as i32;
        diff[i] = if scale == 0 { want - pred[place(i)] } else if rng.below(3) == 0 { 0 } else { (want - pred[place(i)] - scale) / f };
      }
      let lim = depth as i32 + 1;
      let need: Vec<i32> = (0..4).map(|g| (0..4).map(|k| sbits(diff[4 * g + k]) as i32).max().unwrap()).collect();
      let zero = need.iter().all(|&n| n == 0);
      let mut lens = [0i32; 4];
      if !skip && zero && rng.bool() { b.put(1, 1) } else {
        if !skip { b.put(0, 1) }
        let mut fl = [0u32; 4];
        for g in 0..4 {
          let col = if y % 2 != 0 { g >> 1 } else { ((g >> 1) + 2) % 3 };
          let cur = mode[col][0];
          let mut can = vec![];
          if need[g] <= 15 { can.push((3u32, 0)) }
          if cur >= need[g] && cur <= lim { can.push((0, cur)) }
          if cur + 1 >= need[g] && cur + 1 <= lim { can.push((1, cur + 1)) }
          if cur - 1 >= need[g] && cur - 1 <= lim { can.push((2, cur - 1)) }
          let (f, l) = can[rng.below(can.len() as u64) as usize];
          lens[g] = if f == 3 { let top = lim.min(15); if rng.bool() { need[g] } else { rng.range(need[g] as i64, top as i64) as i32 } } else { l };
          fl[g] = f;
          mode[col][0] = mode[col][1];
          mode[col][1] = lens[g];
        }
        for g in 0..4 { b.put(fl[g], 2) }
        for g in 0..4 { if fl[g] == 3 { b.put(lens[g] as u32, 4) } }
      }
      for i in 0..16 {
        b.put(diff[i] as u32, lens[i >> 2] as u32);
        let p = place(i);
        d[y * w + x + p] = (pred[p] + diff[i] * f + scale).max(0).min(max) as u16;
      }
    }
    o.extend(b.finish_le32());
  }
  o.extend(rng.bytes(32));
  (o, d)
}

fn srw(s: &Spec, c: &Cam, what: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x577);
  let (wu, hu) = match what { 2 => (2, 2), 4 => (16, 1), 1 => (2, 1), _ => (1, 1) };
  let (mut w, h) = dims(s, c, wu, hu);
  if what == 2 { w = w.max(16) }
  if what == 4 && s.opt[1] & 4 == 0 && s.opt[1] & 8 == 0 && min_dims(c).0 <= 16 { w = 16 }
  let bits = if s.opt[2] & 1 == 0 { 12u32 } else { 14 };
  let mut label = format!("{}-{}", s.kind, bits);
  let mut t = Tiff::new(&s.lay);
  let max = ((1u32 << bits) - 1) as u16;
  let mut d = s.pix.gen(w * h, w, max);
  let mut extra = vec![];
  let (raw, comp) = match what {
    0 => {
      let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16) << bits).collect();
      (pk::u16s(&up, false), 32769)
    }
    1 => (if bits == 14 { let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16) << 14).collect(); pk::u16s(&up, false) }
      else if c.hint("little_endian") { label += "-le"; pk::lsb12(&d, w) } else { pk::msb(&d, w, 12, 0) }, 32770),
    2 => {
      let (o, offs) = srw1(&d, w, h, &mut rng);
      let ob = t.blob(offs.iter().flat_map(|x| x.to_le_bytes()).collect());
      extra.push((0xA010, V::Off(vec![(ob, 0)])));
      (o, 32770)
    }
    3 => {
      d = s.pix.gen(w * h, w, 4095);
      (srw2(&d, w), 32772)
    }
    _ => {
      let (o, dd) = srw3(s, &d, w, h, bits, &mut rng);
      d = dd;
      label += &format!("-opt{}", s.opt[1] & 7);
      (o, 32773)
    }
  };
  let mut raw = raw;
  if what >= 2 { raw.extend(rng.bytes(16)) }
  let rb = t.blob(raw);
  let mut rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x102, V::Num(vec![bits])), (0x103, V::Num(vec![comp])), (0x111, V::Off(vec![(rb, 0)]))];
  rawd.extend(extra);
  // levels and blacks, stored behind the directory that names them and relative to it
  let blacks = [s.opt[3] as u32 % 300, s.opt[4] as u32 % 300, 7, s.opt[5] as u32 % 300];
  let levels = [s.wb[0] as u32 + blacks[0], s.wb[1] as u32 + blacks[1], s.wb[3] as u32, s.wb[2] as u32 + blacks[3]];
  let be = s.lay.be;
  let lb = t.blob(levels.iter().flat_map(|x| p32(be, *x)).collect());
  let bb = t.blob(blacks.iter().flat_map(|x| p32(be, *x)).collect());
  let mn = t.ifd(vec![(0xA021, V::At(4, 4, lb)), (0xA028, V::At(4, 4, bb))]);
  t.put_last(mn);
  t.put_last(lb);
  t.put_last(bb);
  let mut main = id_entries(c, s.orient);
  let ex = t.ifd(vec![(0x927C, V::At(7, 30, mn))]);
  main.push((0x8769, V::Off(vec![(ex, 0)])));
  let root = super::misc::two_ifds(&mut t, main, rawd, s.opt[0]);
  let (mut bytes, off) = t.build(root);
  patch_entry(&mut bytes, be, off[mn], 0xA021, (off[lb] - off[mn]) as u32);
  patch_entry(&mut bytes, be, off[mn], 0xA028, (off[bb] - off[mn]) as u32);
  let wb = [s.wb[0] as f32, s.wb[1] as f32, s.wb[2] as f32, NAN];
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, Data::Exact(d), s.orient), label }
}

pub fn patch_entry(b: &mut [u8], be: bool, ifd: usize, tag: u16, v: u32) {
  let n = if be { u16::from_be_bytes([b[ifd], b[ifd + 1]]) } else { u16::from_le_bytes([b[ifd], b[ifd + 1]]) } as usize;
  for k in 0..n {
    let p = ifd + 2 + 12 * k;
    if b[p..p + 2] == p16(be, tag) { b[p + 8..p + 12].copy_from_slice(&p32(be, v)) }
  }
}
