use super::*;
use super::packed_ref as pk;
use crate::ljpegw::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "dng-16", class: "packed", cams: is, build: |s, c| dng(s, c, 0), heavy: false },
  Kind { name: "dng-12", class: "packed", cams: is, build: |s, c| dng(s, c, 1), heavy: false },
  Kind { name: "dng-10", class: "packed", cams: is, build: |s, c| dng(s, c, 2), heavy: false },
  Kind { name: "dng-8", class: "curve", cams: is, build: |s, c| dng(s, c, 3), heavy: false },
  Kind { name: "dng-strip", class: "ljpeg", cams: is, build: |s, c| dng(s, c, 4), heavy: false },
  Kind { name: "dng-tiles", class: "ljpeg", cams: is, build: |s, c| dng(s, c, 5), heavy: false },
];
fn is(c: &Cam) -> bool { c.mode.is_empty() && c.filesize == 0 }

/// the samples of one tile, widened with anything to the frame size
fn frame(d: &[u16], stride: usize, x: usize, y: usize, bw: usize, bh: usize, fw: usize, fh: usize, max: u16, rng: &mut Rng) -> Vec<u16> {
  let mut o = vec![0u16; fw * fh];
  for r in 0..fh { for c in 0..fw {
    o[r * fw + c] = if r < bh && c < bw { d[(y + r) * stride + x + c] } else { (rng.u64() as u16) & max };
  } }
  o
}

fn dng(s: &Spec, c: &Cam, what: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xD6);
  let linear = s.opt[1] & 3 == 0;
  let cpp = if linear && s.opt[1] & 4 == 0 { 3usize } else { 1 };
  let mut cps = 2 + s.opt[2] as usize % 3;
  if cpp == 3 && cps != 3 && s.opt[2] & 8 == 0 { cps = 3 }
  let unit = match what { 1 => 2, 2 => 4, 4 | 5 => if cpp == 3 { if cps == 3 { 1 } else { cps } } else { cps }, _ => 1 };
  let up = |v: usize, u: usize| (v + u - 1) / u * u;
  let w = up((s.w as usize).max(1), unit);
  let h = (s.h as usize).max(1);
  let rw = w * cpp;
  let prec = 12 + s.opt[3] as u32 % 5;
  let max: u16 = match what { 0 => 65535, 1 => 4095, 2 => 1023, 3 => 255, _ => ((1u32 << prec) - 1) as u16 };
  let d = s.pix.gen(rw * h, rw, max);
  let mut label = s.kind.clone();
  if linear { label += "-linear" }
  let mut t = Tiff::new(&s.lay);
  let mut raw: Vec<(u16, V)> = vec![];
  let mut main: Vec<(u16, V)> = vec![(0xC612, V::U8(vec![1, 4, 0, 0]))];
  let mut data = Data::Exact(d.clone());
  let fullframe = |d: Vec<u16>, fw: usize, fh: usize, rng: &mut Rng| -> Vec<u8> {
    let mut b = encode(Frame { data: &d, fw: fw / cps, fh, cps, precision: prec, long16: false, rng: Rng::new(rng.u64()) });
    b.extend(rng.bytes(6));
    b
  };
  match what {
    0..=3 => {
      let bits = [16u32, 12, 10, 8][what as usize];
      let b = match what { 0 => pk::u16s(&d, s.lay.be), 1 => pk::msb(&d, rw, 12, 0), 2 => pk::msb(&d, rw, 10, 0), _ => d.iter().map(|v| *v as u8).collect() };
      if what == 3 {
        let curve = super::misc::gen_curve(256, 250, s.opt[4] as u64);
        let (lo, hi) = d.iter().map(|&v| curve_bounds(&curve, v as usize)).unzip();
        data = Data::Range(lo, hi);
        let e = (0xC618, V::Num(curve.iter().map(|v| *v as u32).collect()));
        if s.opt[4] & 1 == 0 { raw.push(e) } else { main.push(e) }
      }
      let rb = t.blob(b);
      raw.push((0x111, V::Off(vec![(rb, 0)])));
      raw.push((0x102, V::Num(vec![bits])));
      raw.push((0x103, V::Num(vec![1])));
    }
    4 => {
      // the coded frame may be larger than the image
      let (fw, fh) = (rw + cps * (s.opt[4] as usize % 3), h + s.opt[4] as usize / 4 % 3);
      let f = frame(&d, rw, 0, 0, rw, h, fw, fh, max, &mut rng);
      let b = fullframe(f, fw, fh, &mut rng);
      let rb = t.blob(b);
      raw.push((0x111, V::Off(vec![(rb, 0)])));
      raw.push((0x103, V::Num(vec![7])));
      label += &format!("-{}comp{}", cps, if (fw, fh) != (rw, h) { "-wider" } else { "" });
    }
    _ => {
      // a frame has at most 65535 rows and columns
      let tw = up((1 + s.opt[4] as usize % (w + 4)).min(65000 * cps / cpp), unit);
      let tl = (1 + s.opt[5] as usize % (h + 4)).min(65535);
      let mut offs = vec![];
      for y in (0..h).step_by(tl) { for x in (0..rw).step_by(tw * cpp) {
        let (bw, bh) = ((rw - x).min(tw * cpp), (h - y).min(tl));
        // edge tiles are stored whole, or just the part that is needed
        let (fw, fh) = if s.opt[0] & 8 == 0 { (tw * cpp, tl) } else { (bw, bh) };
        let f = frame(&d, rw, x, y, bw, bh, fw, fh, max, &mut rng);
        let b = fullframe(f, fw, fh, &mut rng);
        offs.push((t.blob(b), 0));
      } }
      label += &format!("-{}comp{}", cps, if offs.len() > 1 { "-many" } else { "" });
      raw.push((0x144, V::Off(offs)));
      raw.push((0x142, V::Num(vec![tw as u32])));
      raw.push((0x143, V::Num(vec![tl as u32])));
      raw.push((0x103, V::Num(vec![7])));
    }
  }
  // identity: a known camera, or whatever the file says
  let known = s.opt[5] & 1 == 0;
  let mut exp = Expect::from_cam(c, w, h, [NAN; 4], data, s.orient);
  if known { main.extend(id_entries(c, s.orient)) } else {
    let mut u = c.clone();
    u.make = format!("Unheard Of {}", s.opt[5] % 100);
    u.model = format!("Model {}", s.opt[4] % 1000);
    main.extend(id_entries(&u, s.orient));
    exp.make = u.make.clone(); exp.clean_make = u.make; exp.model = u.model.clone(); exp.clean_model = u.model;
    label += "-unknown";
  }
  exp.cpp = cpp;
  exp.wb = if s.wb[3] % 5 == 0 { [NAN; 4] } else {
    let q = 1000 + s.wb[3] as u32;
    let m = if rng.bool() { 1 } else { u32::MAX / (0..3).map(|k| s.wb[k] as u32).max().unwrap().max(q) };
    main.push((0xC628, V::Rat((0..3).map(|k| (s.wb[k] as u32 * m, q * m)).collect())));
    let f = |k: usize| 1.0 / (s.wb[k] as f32 / q as f32);
    [f(0), f(1), f(2), NAN]
  };
  raw.extend(vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x115, V::Num(vec![cpp as u32])), (0x106, V::Num(vec![if linear { 34892 } else { 32803 }]))]);
  let mut pattern: Vec<u8> = vec![];
  if linear { exp.pattern = String::new() } else {
    let n = if rng.below(3) == 0 { 36 } else { 4 };
    pattern = (0..n).map(|_| rng.below(3) as u8).collect();
    exp.pattern = pattern.iter().map(|x| ['R', 'G', 'B'][*x as usize]).collect();
    raw.push((0x828E, V::U8(pattern.clone())));
  }
  exp.black = Black::Fixed([0; 4]);
  if rng.below(5) > 0 {
    // one level, one for each sample of a pixel, or one for each position of a repeating pattern
    let dims = if !linear && rng.below(3) > 0 { [(1usize, 1usize), (1, 2), (2, 1), (2, 2), (2, 2), (2, 2), (4, 4), (3, 2), (6, 6), (8, 8)][rng.below(10) as usize] } else { (1, 1) };
    let n = if linear && rng.bool() { cpp } else { dims.0 * dims.1 };
    let b: Vec<u32> = (0..n).map(|_| rng.below(1025) as u32).collect();
    raw.push((0xC61A, if rng.bool() { V::Num(b.clone()) } else { let q = 1 + rng.below(4) as u32; V::Rat(b.iter().map(|x| (x * q, q)).collect()) }));
    // without dimensions: a single level, or the pattern of the filters
    if !(n == 1 || linear || dims == (2, 2) && pattern.len() == 4) || rng.bool() { raw.push((0xC619, V::U16(vec![dims.0 as u16, dims.1 as u16]))) }
    exp.black = if n == 1 { Black::Fixed([b[0] as u16; 4]) } else if linear { Black::Between([(b[0] as u16, b[0] as u16), (b[1] as u16, b[1] as u16), (b[2] as u16, b[2] as u16), (0, 65535)]) } else {
      let side = if pattern.len() == 4 { 2 } else { 6 };
      let mut r = [(65535u16, 0u16); 4];
      for y in 0..dims.0 * side { for x in 0..dims.1 * side {
        let (k, v) = (pattern[y % side * side + x % side] as usize, b[y % dims.0 * dims.1 + x % dims.1] as u16);
        r[k] = (r[k].0.min(v), r[k].1.max(v));
      } }
      for k in 0..4 { if r[k].0 > r[k].1 { r[k] = (0, 65535) } }
      Black::Between(r)
    };
  }
  let n = if rng.bool() { 1 } else { cpp };
  let white: Vec<u32> = (0..n).map(|_| 1 + rng.below(65535) as u32).collect();
  exp.white = if n == 3 { [white[0] as u16, white[1] as u16, white[2] as u16, white[0] as u16] } else { [white[0] as u16; 4] };
  raw.push((0xC61D, V::Num(white)));
  exp.crops = [0; 4];
  if rng.bool() {
    let (top, left) = (rng.below(h as u64) as usize, rng.below(w as u64) as usize);
    let (bottom, right) = (rng.range(top as i64 + 1, h as i64) as usize, rng.range(left as i64 + 1, w as i64) as usize);
    raw.push((0xC68D, V::Num(vec![top as u32, left as u32, bottom as u32, right as u32])));
    exp.crops = [top, w - right, h - bottom, left];
  }
  exp.matrix = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227], [0.0; 3]];
  let mats = rng.below(4);
  for (bit, tag) in [(1, 0xC621u16), (2, 0xC622)] {
    if mats & bit != 0 {
      let n = if rng.below(4) == 0 { 12 } else { 9 };
      let m: Vec<(i32, i32)> = (0..n).map(|_| (rng.range(-20000, 20000) as i32, 10000)).collect();
      exp.matrix = [[0.0; 3]; 4];
      for (k, v) in m.iter().enumerate() { exp.matrix[k / 3][k % 3] = v.0 as f32 / v.1 as f32 }
      main.push((tag, V::SRat(m)));
    }
  }
  let root = if s.opt[0] & 4 == 0 { super::misc::two_ifds(&mut t, main, raw, s.opt[0] >> 4) } else {
    // the first directory is a reduced image that must not be taken
    main.extend(vec![(0xFE, V::U32(vec![1])), (0x100, V::Num(vec![8])), (0x101, V::Num(vec![8])), (0x103, V::Num(vec![if rng.bool() { 1 } else { 7 }])), (0x106, V::Num(vec![2])), (0x115, V::Num(vec![3])), (0x111, V::Num(vec![8]))]);
    // with levels, pattern and area of its own
    if rng.bool() { main.push((0xC61D, V::Num(vec![rng.below(65536) as u32]))) }
    if rng.bool() { main.push((0xC61A, V::Num((0..4).map(|_| rng.below(900) as u32).collect()))) }
    if rng.bool() { main.push((0x828E, V::U8((0..4).map(|_| rng.below(3) as u8).collect()))) }
    if rng.bool() { main.push((0xC68D, V::Num(vec![1, 2, 3, 4]))) }
    if rng.bool() { raw.push((0xFE, V::U32(vec![0]))) }
    let r = t.ifd(raw);
    let p = t.ifd(vec![(0xFE, V::U32(vec![1])), (0x103, V::Num(vec![7])), (0x100, V::Num(vec![4])), (0x101, V::Num(vec![4]))]);
    main.push((0x14A, V::Off(if rng.bool() { vec![(r, 0), (p, 0)] } else { vec![(p, 0), (r, 0)] })));
    t.ifd(main)
  };
  let (bytes, _) = t.build(root);
  Sample { bytes, exp, label }
}
