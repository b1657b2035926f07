//! Reference lossless-JPEG writer (predictor 1 and the vendor variants), with generated
//! Huffman tables.
use crate::bits::Msb;
use crate::util::Rng;

#[derive(Clone, Debug)]
pub struct Huff {
  /// number of codes per length 1..=16
  pub bits: [u8; 17],
  pub vals: Vec<u8>,
  /// (code, length) per symbol
  pub code: Vec<Option<(u32, u32)>>,
}

impl Huff {
  /// canonical code from per-symbol lengths in code order
  pub fn canonical(order: &[(u8, u32)]) -> Huff {
    let mut bits = [0u8; 17];
    let mut vals = vec![];
    let mut code = vec![None; 256];
    let mut next = 0u32;
    let mut len = 0;
    for &(sym, l) in order {
      assert!(l >= len && l <= 16);
      next <<= l - len;
      len = l;
      bits[l as usize] += 1;
      vals.push(sym);
      code[sym as usize] = Some((next, l));
      next += 1;
    }
    Huff { bits, vals, code }
  }
  /// a random complete prefix code (minus the all-ones code) over the given symbols
  pub fn random(syms: &[u8], maxlen: u32, rng: &mut Rng) -> Huff {
    let need = syms.len() + 1;
    let mut leaves = vec![0u32];
    let skew = rng.below(4);
    while leaves.len() < need {
      let cand: Vec<usize> = (0..leaves.len()).filter(|&i| leaves[i] < maxlen).collect();
      assert!(!cand.is_empty(), "no room for {} codes of {} bits", need, maxlen);
      // skew 0: uniform leaf; 1: prefer deep leaves; 2: prefer shallow
      let mut pick = cand[rng.below(cand.len() as u64) as usize];
      if skew == 3 {
        // a comb: code lengths up to the limit
        pick = *cand.iter().max_by_key(|&&i| leaves[i]).unwrap();
      } else if skew > 0 {
        for _ in 0..2 {
          let q = cand[rng.below(cand.len() as u64) as usize];
          if (skew == 1 && leaves[q] > leaves[pick]) || (skew == 2 && leaves[q] < leaves[pick]) { pick = q }
        }
      }
      // deep codes must not exhaust the room for the rest
      let l = leaves[pick] + 1;
      leaves[pick] = l;
      leaves.push(l);
    }
    leaves.sort();
    leaves.pop(); // the all-ones code stays unused
    let mut s = syms.to_vec();
    for i in (1..s.len()).rev() { let j = rng.below(i as u64 + 1) as usize; s.swap(i, j) }
    let order: Vec<(u8, u32)> = s.into_iter().zip(leaves).collect();
    Huff::canonical(&order)
  }
  pub fn sym(&self, b: &mut Msb, s: usize) {
    let (c, l) = self.code[s].expect("symbol without a code");
    b.put(c, l);
  }
  /// difference modulo 2^16: length category, then the extra bits
  pub fn diff(&self, b: &mut Msb, d: i32, long16: bool) {
    let n = cat(d);
    self.sym(b, n as usize);
    self.extra(b, d, n, long16);
  }
  pub fn extra(&self, b: &mut Msb, d: i32, n: u32, long16: bool) {
    if n == 16 { if long16 { b.put(0, 16) } }
    else if n > 0 { b.put(if d > 0 { d as u32 } else { (d + (1 << n) - 1) as u32 }, n) }
  }
  pub fn dht(&self, id: u8) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(&self.bits[1..]);
    o.extend(&self.vals);
    o
  }
}

/// JPEG length category of a difference in -32768..=32767
pub fn cat(d: i32) -> u32 {
  if d == -32768 { return 16 }
  let mut n = 0;
  while (d.abs() >> n) != 0 { n += 1 }
  n
}
pub fn wrap(d: i32) -> i32 { (d as u16) as i16 as i32 }

pub struct Frame<'a> {
  /// interleaved samples, `fw*cps` per row
  pub data: &'a [u16],
  pub fw: usize,
  pub fh: usize,
  pub cps: usize,
  pub precision: u32,
  /// vendor files that code a 16-bit difference with 16 extra bits
  pub long16: bool,
  pub rng: Rng,
}

/// What makes a lossless JPEG stream one of an unsupported kind, for files that are wrong on purpose.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strange { Predictor(u8), Precision(u8), FrameType(u8), Quantised }
thread_local! { static STRANGE: std::cell::Cell<Option<Strange>> = std::cell::Cell::new(None); }
pub fn with_strange<T>(k: Strange, f: impl FnOnce() -> T) -> T {
  STRANGE.with(|o| o.set(Some(k)));
  let r = f();
  STRANGE.with(|o| o.set(None));
  r
}

/// Headers up to and including SOS.
pub fn headers(precision: u32, fw: usize, fh: usize, cps: usize, sampling: &[u8], tables: &[Huff], sel: &[usize], pred: u8, ids: &[u8], sos_ids: &[u8], rng: &mut Rng) -> Vec<u8> {
  let mut o = vec![0xff, 0xd8];
  let mut segs: Vec<Vec<u8>> = vec![];
  if rng.below(3) == 0 {
    let n = rng.below(12) as usize;
    let mut s = vec![0xff, 0xe0 + rng.below(15) as u8];
    s.extend(((n + 2) as u16).to_be_bytes());
    s.extend(rng.bytes(n).iter().map(|b| b & 0x7f));
    segs.push(s);
  }
  let strange = STRANGE.with(|o| o.get());
  let (precision, pred, sofm) = match strange {
    Some(Strange::Predictor(p)) => (precision, p, 0xc3),
    Some(Strange::Precision(p)) => (p as u32, pred, 0xc3),
    Some(Strange::FrameType(t)) => (precision, pred, t),
    _ => (precision, pred, 0xc3),
  };
  if strange == Some(Strange::Quantised) {
    let mut s = vec![0xff, 0xdb, 0, 67, 0];
    s.extend(rng.bytes(64).iter().map(|b| b & 0x7f));
    segs.push(s);
  }
  let mut sof = vec![0xff, sofm];
  sof.extend(((8 + 3 * cps) as u16).to_be_bytes());
  sof.push(precision as u8);
  assert!(fw <= 65535 && fh <= 65535, "a JPEG frame of {}x{}", fw, fh);
  sof.extend((fh as u16).to_be_bytes());
  sof.extend((fw as u16).to_be_bytes());
  sof.push(cps as u8);
  for c in 0..cps { sof.push(ids[c]); sof.push(sampling[c]); sof.push(0) }
  segs.push(sof);
  // which of the four table slots each table goes to
  let mut slot = [0u8, 1, 2, 3];
  if rng.bool() { for i in (1..4).rev() { slot.swap(i, rng.below(i as u64 + 1) as usize) } }
  if rng.bool() {
    let mut s = vec![0xff, 0xc4];
    let body: Vec<u8> = tables.iter().enumerate().flat_map(|(i, t)| t.dht(slot[i])).collect();
    s.extend(((body.len() + 2) as u16).to_be_bytes());
    s.extend(body);
    segs.push(s);
  } else {
    for (i, t) in tables.iter().enumerate() {
      let mut s = vec![0xff, 0xc4];
      let body = t.dht(slot[i]);
      s.extend(((body.len() + 2) as u16).to_be_bytes());
      s.extend(body);
      segs.push(s);
    }
  }
  for i in (1..segs.len()).rev() { let j = rng.below(i as u64 + 1) as usize; segs.swap(i, j) }
  for s in segs { o.extend(s) }
  o.extend([0xff, 0xda]);
  o.extend(((6 + 2 * cps) as u16).to_be_bytes());
  o.push(cps as u8);
  for c in 0..cps { o.push(sos_ids[c]); o.push(slot[sel[c]] << 4) }
  o.extend([pred, 0, 0]);
  o
}

/// Tables for a stream of (table, difference): of all lengths, of those in use only, or in between.
pub fn tables_for(n: usize, coded: &[(usize, i32)], rng: &mut Rng) -> Vec<Huff> {
  let mut used = vec![[false; 17]; n];
  for &(t, d) in coded { used[t][cat(d) as usize] = true }
  used.iter().map(|u| {
    let all = rng.below(3);
    let mut syms: Vec<u8> = (0..=16).filter(|&k| all == 0 || u[k as usize] || (all == 2 && rng.below(3) == 0)).collect();
    if syms.is_empty() { syms.push(rng.below(17) as u8) }
    let maxlen = 6 + rng.below(11) as u32;
    Huff::random(&syms, maxlen, rng)
  }).collect()
}

pub fn encode(f: Frame) -> Vec<u8> {
  let mut rng = f.rng;
  let nt = 1 + rng.below(f.cps.min(4) as u64) as usize;
  let sel: Vec<usize> = (0..f.cps).map(|_| rng.below(nt as u64) as usize).collect();
  let rw = f.fw * f.cps;
  let mut coded = Vec::with_capacity(rw * f.fh);
  for y in 0..f.fh {
    for x in 0..f.fw {
      for c in 0..f.cps {
        let v = f.data[y * rw + x * f.cps + c] as i32;
        let p = if x > 0 { f.data[y * rw + (x - 1) * f.cps + c] as i32 } else if y > 0 { f.data[(y - 1) * rw + c] as i32 } else { 1 << (f.precision - 1) };
        coded.push((sel[c], wrap(v - p)));
      }
    }
  }
  let tables = tables_for(nt, &coded, &mut rng);
  let base = rng.below(200) as u8;
  let ids: Vec<u8> = (0..f.cps).map(|c| base + c as u8).collect();
  let mut o = headers(f.precision, f.fw, f.fh, f.cps, &vec![0x11; f.cps], &tables, &sel, 1, &ids, &ids, &mut rng);
  let mut b = Msb::new();
  for (t, d) in coded { tables[t].diff(&mut b, d, f.long16) }
  o.extend(b.finish_jpeg());
  o.extend([0xff, 0xd9]);
  o
}
