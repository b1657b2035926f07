use super::*;
use super::packed_ref as pk;
use crate::bits::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "arw-16le", class: "packed", cams: |c| is(c) && c.model != "DSC-R1", build: |s, c| arw(s, c, 0), heavy: false },
  Kind { name: "arw-r1", class: "packed", cams: |c| is(c) && c.model == "DSC-R1", build: |s, c| arw(s, c, 1), heavy: false },
  Kind { name: "arw-12le", class: "packed", cams: |c| is(c) && (c.bps == 0 || c.bps == 12), build: |s, c| arw(s, c, 2), heavy: false },
  Kind { name: "arw1", class: "vendor", cams: |c| is(c), build: |s, c| arw(s, c, 3), heavy: false },
  Kind { name: "arw2", class: "curve", cams: |c| is(c) && (c.bps == 0 || c.bps == 8), build: |s, c| arw(s, c, 4), heavy: false },
  Kind { name: "arw-a100", class: "vendor", cams: |c| c.make == "SONY" && c.model == "DSLR-A100", build: a100, heavy: true },
  Kind { name: "srf", class: "packed", cams: |c| is(c), build: srf, heavy: true },
];
fn is(c: &Cam) -> bool { c.make == "SONY" && c.model != "DSLR-A100" && c.mode.is_empty() }

/// the Sony stream cipher (xor with a key stream, so it is its own inverse)
pub fn cipher(data: &[u8], key: u32) -> Vec<u8> {
  let mut pad = [0u32; 128];
  let mut k = key;
  for p in 0..4 { k = k.wrapping_mul(48828125).wrapping_add(1); pad[p] = k }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for p in 4..127 { pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31 }
  for p in 0..127 { pad[p] = pad[p].swap_bytes() }
  let mut o = Vec::with_capacity(data.len());
  for (i, c) in data.chunks(4).enumerate() {
    let p = i + 127;
    pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127];
    let kb = pad[p & 127].to_le_bytes();
    for (j, b) in c.iter().enumerate() { o.push(b ^ kb[j]) }
  }
  o
}

fn arw1(d: &[u16], w: usize, h: usize, rng: &mut Rng) -> Vec<u8> {
  let mut b = Msb::new();
  let mut prev = 0i32;
  for x in (0..w).rev() {
    for par in 0..2 {
      let mut y = par;
      while y < h {
        let v = d[y * w + x] as i32;
        let diff = v - prev;
        prev = v;
        put_arw1(&mut b, diff, rng);
        y += 2;
      }
    }
  }
  b.finish()
}
fn put_arw1(b: &mut Msb, diff: i32, rng: &mut Rng) {
  // smallest length class that holds the difference; a longer one cannot represent it
  let mut len = 0;
  while len < 17 && (diff.abs() >> len) != 0 { len += 1 }
  let _ = rng;
  match len {
    0 => { b.put(1, 2); b.put(1, 1) }   // class 3 with the zero flag
    1 => b.put(3, 2),
    2 => b.put(2, 2),
    3 => { b.put(1, 2); b.put(0, 1) }
    n => { b.put(0, 2); let z = n - 4; b.put(0, z); if z < 13 { b.put(1, 1) } }
  }
  if len > 0 {
    let v = if diff > 0 { diff as u32 } else { (diff + (1 << len) - 1) as u32 };
    b.put(v, len);
  }
}

fn arw2(w: usize, h: usize, curve: &[u16], pix: &Pix, rng: &mut Rng) -> (Vec<u8>, Vec<u16>, Vec<u16>) {
  let mut o = vec![];
  let n = w * h;
  let (mut lo, mut hi) = (vec![0u16; n], vec![0u16; n]);
  let base = pix.gen(n, w, 2047);
  for row in 0..h {
    let mut b = Lsb::new();
    for g in 0..w / 32 {
      for j in 0..2 {
        // 16 target values; the extremes are coded exactly, others in 7 bits above min
        let idx: Vec<usize> = (0..16).map(|i| row * w + g * 32 + j + i * 2).collect();
        let want: Vec<u32> = idx.iter().map(|&i| base[i] as u32).collect();
        let max = *want.iter().max().unwrap();
        let min = *want.iter().min().unwrap();
        let mut imax = want.iter().position(|&v| v == max).unwrap();
        let mut imin = want.iter().rposition(|&v| v == min).unwrap();
        if imax == imin { imax = rng.below(16) as usize; imin = (imax + 1 + rng.below(15) as usize) % 16 }
        let delta = max - min;
        let mut sh = 0;
        while sh < 4 && (delta >> sh) > 0x7f { sh += 1 }
        // samples may also be coded as more than the stated maximum, up to the largest symbol
        let wild = rng.below(8) == 0;
        b.put(max, 11); b.put(min, 11); b.put(imax as u32, 4); b.put(imin as u32, 4);
        for i in 0..16 {
          let v = if i == imax { max } else if i == imin { min } else {
            let q = if wild { rng.below(128) as u32 } else { ((want[i] - min) >> sh).min(127) };
            b.put(q, 7);
            ((q << sh) + min).min(0x7ff)
          };
          let (l, u) = curve_bounds(curve, (v << 1) as usize);
          lo[idx[i]] = l;
          hi[idx[i]] = u;
        }
      }
    }
    o.extend(b.finish());
  }
  (o, lo, hi)
}

fn arw(s: &Spec, c: &Cam, variant: u32) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x50);
  let (w, h) = match variant { 4 => dims(s, c, 32, 1), 3 => { let (w, h) = dims(s, c, 1, 2); (w, h.max(10)) }, 2 => dims(s, c, 2, 1), _ => dims(s, c, 1, 1) };
  let mut ents = vec![];
  let (mut raw, data, comp, bps, count, taglen) = match variant {
    0 => { let d = s.pix.gen(w * h, w, 65535); (pk::u16s(&d, false), Data::Exact(d), 1, 16, w * h * 2, h) }
    1 => {
      let d = s.pix.gen(w * h, w, 0x3fff);
      let up: Vec<u16> = d.iter().map(|v| v | (rng.u64() as u16 & 0xc000)).collect();
      (pk::u16s(&up, true), Data::Exact(d), 1, 16, w * h * 2, h)
    }
    2 => { let d = s.pix.gen(w * h, w, 4095); (pk::lsb12(&d, w), Data::Exact(d), 32767, 12, w * h * 3 / 2, h) }
    3 => {
      let d = s.pix.gen(w * h, w, if s.opt[0] & 1 == 0 { 4095 } else { 65535 });
      let b = arw1(&d, w, h, &mut rng);
      // anything but the exact packed size selects the differential coding
      let mut cnt = b.len();
      let bps = if c.bps != 0 { c.bps } else { 8 };
      if cnt * 8 == w * (h - 8) * bps { cnt += 1 }
      (b, Data::Exact(d), 32767, 8, cnt, h - 8)
    }
    _ => {
      // breakpoints of the companding curve, stored times four
      let mut p: Vec<u16> = (0..4).map(|k| s.opt[k] & 0xfff).collect();
      p.sort();
      ents.push((0x7010, V::U16(p.iter().map(|x| x << 2 | (rng.u64() & 3) as u16).collect())));
      let mut bounds = vec![0usize];
      bounds.extend(p.iter().map(|&x| x as usize));
      bounds.push(4095);
      let mut curve = vec![0u16; 4096];
      for j in 1..4096usize {
        let seg = (0..5).find(|&i| j > bounds[i] && j <= bounds[i + 1]).unwrap();
        curve[j] = curve[j - 1] + (1 << seg);
      }
      let (b, lo, hi) = arw2(w, h, &curve, &s.pix, &mut rng);
      (b, Data::Range(lo, hi), 32767, 8, w * h, h)
    }
  };
  raw.extend(rng.bytes(16));
  // private data: little-endian directory at a fixed place pointing at an enciphered one
  let key = (s.opt[4] as u32) << 16 | s.opt[5] as u32;
  let p_off = 16 + (s.lay.seed as usize % 50) * 2;
  let s_off = p_off + 2 + 36 + 4 + 2 * (s.lay.pad as usize);
  let mut sr = vec![];
  let rggb = s.opt[4] & 1 == 1;
  let ty = if s.opt[4] & 2 == 0 { 3u16 } else { 8 };
  sr.extend(1u16.to_le_bytes());
  sr.extend(if rggb { 0x7313u16 } else { 0x7303 }.to_le_bytes());
  sr.extend(ty.to_le_bytes());
  sr.extend(4u32.to_le_bytes());
  let at = 20 + 2 * (s.opt[5] as usize >> 3 & 1);
  sr.extend(((s_off + at) as u32).to_le_bytes());
  sr.extend(0u32.to_le_bytes());
  sr.resize(at, 0);
  for v in s.wb { sr.extend(v.to_le_bytes()) }
  // the stated length is that of the data, not rounded up to whole words
  let slen = if s.opt[5] & 4 == 0 { 32 } else { sr.len() };
  sr.resize(32, 0);
  // all whole and partial words of the length are enciphered, what follows them is not part of it
  sr.extend([0; 8]);
  let enc = cipher(&sr, key);
  let mut pr = vec![];
  pr.extend(3u16.to_le_bytes());
  for (tag, val) in [(0x7200u16, s_off as u32), (0x7201, slen as u32), (0x7221, key)] {
    pr.extend(tag.to_le_bytes()); pr.extend(4u16.to_le_bytes()); pr.extend(1u32.to_le_bytes()); pr.extend(val.to_le_bytes());
  }
  pr.extend(0u32.to_le_bytes());
  let wb = if rggb { [s.wb[0] as f32, s.wb[1] as f32, s.wb[3] as f32, NAN] } else { [s.wb[1] as f32, s.wb[0] as f32, s.wb[2] as f32, NAN] };

  let mut t = Tiff::new(&s.lay);
  let po = t.blob_at(pr, p_off);
  let _so = t.blob_at(enc, s_off);
  let rb = t.blob(raw);
  ents.extend(vec![
    (0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![taglen as u32])), (0x102, V::Num(vec![bps])), (0x103, V::Num(vec![comp])),
    (0x111, V::Off(vec![(rb, 0)])), (0x117, V::Num(vec![count as u32])),
  ]);
  let mut main = id_entries(c, s.orient);
  main.push((0xC634, if s.opt[5] & 1 == 0 { V::Off(vec![(po, 0)]) } else { V::Raw(1, 4, p32(s.lay.be, p_off as u32).to_vec()) }));
  let root;
  if s.opt[5] & 2 == 0 {
    // raw directory as a sub-directory, thumbnail dimensions in the main one
    main.push((0x100, V::Num(vec![7])));
    main.push((0x101, V::Num(vec![5])));
    let raw_ifd = t.ifd(ents);
    main.push((0x14A, V::Off(vec![(raw_ifd, 0)])));
    root = t.ifd(main);
  } else {
    main.extend(ents);
    root = t.ifd(main);
  }
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, wb, data, s.orient), label: format!("{}{}{}", s.kind, if rggb { "-rggb" } else { "-grbg" }, if s.lay.be { "-mm" } else { "" }) }
}

fn a100(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = (3881, 2608);
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0xA100);
  let mut d = s.pix.gen(w * h, w, 4095);
  // the data must not look like a directory: its first two bytes read as a large number
  // in either byte order because the first two differences are 4..=7 and 2..=3
  d[w - 1] = 4 + s.opt[1] % 4;
  d[3 * w - 1] = d[w - 1] + 2 + s.opt[2] % 2;
  let mut raw = arw1(&d, w, h, &mut rng);
  assert!(raw[0] >= 0x40 && raw[1] >= 0x40);
  raw.extend(rng.bytes(16));
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  let mut pr = rng.bytes(8);
  // blocks: other ones before the white balance block
  for k in 0..s.opt[0] % 4 {
    let l = 24 + (k as usize) * 2;
    pr.extend(0x00545457u32.to_be_bytes());
    pr.extend((l as u32).to_le_bytes());
    pr.extend(rng.bytes(l));
  }
  pr.extend(0x00574247u32.to_be_bytes());
  pr.extend(16u32.to_le_bytes());
  pr.extend(rng.bytes(4));
  for v in s.wb { pr.extend(v.to_le_bytes()) }
  pr.extend(rng.bytes(32));
  let pb = t.blob(pr);
  let mut main = id_entries(c, s.orient);
  main.push((0xC634, V::Off(vec![(pb, 0)])));
  main.push((0x14A, V::Off(vec![(rb, 0)])));
  let root = t.ifd(main);
  let (bytes, _) = t.build(root);
  Sample { bytes, exp: Expect::from_cam(c, w, h, [s.wb[0] as f32, s.wb[1] as f32, s.wb[3] as f32, NAN], Data::Exact(d), s.orient), label: s.kind.clone() }
}

fn srf(s: &Spec, c: &Cam) -> Sample {
  let (w, h) = dims(s, c, 1, 1);
  let d = s.pix.gen(w * h, w, 65535);
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x5F);
  let (off, key_off, head_off) = (862144usize, 200896usize, 164600usize);
  let len = w * h * 2;
  let mut plain = pk::u16s(&d, true);
  plain.resize((len / 4 + 1) * 4, 0);
  let key1 = (s.opt[0] as u32) << 16 | s.opt[1] as u32;
  let key2 = (s.opt[2] as u32) << 16 | s.opt[3] as u32;
  let mut t = Tiff::new(&Layout { tail: 0, ..s.lay.clone() });
  let mut main = id_entries(c, s.orient);
  main.push((0x100, V::Num(vec![w as u32])));
  main.push((0x101, V::Num(vec![h as u32])));
  let root = t.ifd(main);
  let (mut bytes, _) = t.build(root);
  let n = bytes.len();
  bytes.extend(rng.bytes(off - n));
  let sel = (s.opt[4] % 256) as u8;
  let sel = sel.max(1);
  bytes[key_off] = sel;
  let kp = key_off + sel as usize * 4;
  bytes[kp..kp + 4].copy_from_slice(&key1.to_be_bytes());
  let mut head = rng.bytes(44);
  head[22..26].copy_from_slice(&key2.to_le_bytes());
  let head = cipher(&head, key1);
  bytes[head_off..head_off + 44].copy_from_slice(&head);
  bytes.extend(cipher(&plain, key2));
  bytes.extend(rng.bytes(s.lay.tail as usize));
  Sample { bytes, exp: Expect::from_cam(c, w, h, [NAN; 4], Data::Exact(d), s.orient), label: s.kind.clone() }
}
