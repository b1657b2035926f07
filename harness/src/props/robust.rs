//! Any bytes at all: decoding gives a consistent image or an error result.
use super::Prop;
use crate::engine::*;
use crate::fmt::*;
use crate::tiffw::with_override;
use crate::util::*;
use proptest::prelude::{any, BoxedStrategy, Just, Strategy};
use proptest::prop_oneof;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
  /// one byte
  Byte { at: u32, v: u8 },
  /// an interesting 16 or 32 bit value, in either byte order
  Word { at: u32, v: u8, wide: bool, be: bool, even: bool },
  Truncate(u32),
  /// keep only so many bytes of the end away
  Shave(u16),
  /// overwrite a stretch with one byte value
  Fill { at: u32, len: u16, v: u8 },
  /// overwrite a stretch with random bytes
  Noise { at: u32, len: u16, seed: u32 },
  Insert { at: u32, len: u16, seed: u32 },
  Remove { at: u32, len: u16 },
  /// copy a stretch over another one
  Copy { from: u32, to: u32, len: u16 },
  /// make the nth thing that looks like an offset point to where the mth points
  Repoint { n: u16, m: u16, delta: i8 },
  /// give the nth thing that looks like an offset, length or count another value
  Field { n: u16, v: u8 },
  /// every number that equals the width or the height of the image becomes another one
  Dims { w: u8, h: u8 },
  /// the nth directory of a CIFF file contains the heap it lies in, or an entry is given another type, length or offset
  Ciff { n: u8, v: u8 },
  /// the rest is taken from another file
  Splice { at: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { base: Option<Spec>, other: Option<Spec>, head: u8, len: u32, seed: u32, tag: u8, tagval: u8, muts: Vec<Mut> }

const TAGS: [u16; 44] = [0x100, 0x101, 0x102, 0x103, 0x111, 0x115, 0x116, 0x117, 0x142, 0x143, 0x144, 0x145, 0x14a, 0x8769, 0x927c, 0x8825, 0xc634, 0xc640,
  0x7310, 0x7200, 0x7221, 0x4001, 0x00fd, 0x8602, 0x0096, 0x008c, 0x000c, 0x0097, 0xc61a, 0xc61d, 0xc621, 0xc628, 0x828e, 0x828d, 0x2, 0x3, 0x118, 0xc612, 0x0201, 0x0202, 0x7313, 0xa028, 0xa010, 0xfe00];

fn interesting(k: u8, len: usize) -> u32 {
  const V: [u32; 40] = [0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 4095, 4096, 9999, 16383, 32767, 32768, 65534, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
  let l = len as u32;
  match k % 76 {
    k if k < 40 => V[k as usize],
    // lengths that wrap around when a small number is added or they are multiplied
    k if k >= 68 => 0u32.wrapping_sub([4, 6, 7, 8, 10, 12, 16, 20][k as usize - 68]),
    k if k >= 60 => [0x4000_0000, 0x4000_0001, 0x2000_0000, 0x5555_5556, 0xaaaa_aaab, 0x1000_0000, 0xc000_0000, 0xffff_0000][k as usize - 60],
    k if k >= 52 => [6, 9, 11, 18, 20, 40, 48, 200][k as usize - 52],
    40 => l, 41 => l.wrapping_sub(1), 42 => l + 1, 43 => l / 2, 44 => l.wrapping_sub(2), 45 => l.wrapping_sub(4), 46 => l * 2,
    47 => 0x1_0001, 48 => 500_000, 49 => 499_999, 50 => 22_360, _ => 0x00ff_ffff,
  }
}

const HEADS: [&[u8]; 22] = [b"", b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"IIU\0\x18\0\0\0", b"IIRO\x08\0\0\0", b"IIRS\x08\0\0\0", b"MMOR\0\0\0\x08",
  b"FUJIFILMCCD-RAW 0201", b"FOVb\0\0\x02\0", b"\0MRM\0\0\0\x20\0PRD", b"\0MRI", b"II\x1a\0\0\0HEAPCCDR\x02\0\x01\0", b"ARRI\x12\x34\x56\x78\0\x10\0\0",
  b"FUJIFILMCCD-RAW 0200FF", b"II*\0\xff\xff\xff\xff", b"MM\0*\xff\xff\xff\xff", b"II*\0\0\0\0\0", b"MM\0*\0\0\0\0", b"IIII\x08\0\0\0", b"MMMM\0\0\0\x08RAWW", b"II\x0e\0\0\0HEAPCCDR", b"\0MRM\xff\xff\xff\xff\0\0\0\0"];

fn pos(at: u32, len: usize) -> usize {
  if len == 0 { return 0 }
  // half of the positions fall into the first 600 bytes or the last 200
  match at & 7 {
    0 | 1 | 2 => (at >> 3) as usize % len.min(600),
    3 => len - 1 - (at >> 3) as usize % len.min(200),
    _ => (at >> 3) as usize % len,
  }
}

fn offsets(b: &[u8]) -> Vec<(usize, bool, u32)> {
  let mut v = vec![];
  let n = b.len().min(6000);
  let mut i = 0;
  while i + 4 <= n {
    let l = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let e = l.swap_bytes();
    if l >= 8 && (l as usize) < b.len() { v.push((i, false, l)) } else if e >= 8 && (e as usize) < b.len() { v.push((i, true, e)) }
    i += 2;
  }
  v
}

/// the entries of the heaps of a CIFF file: (position, start and end of the heap)
fn heaps(b: &[u8]) -> Vec<(usize, usize, usize)> {
  let mut v = vec![];
  if b.len() < 26 || &b[6..14] != b"HEAPCCDR" { return v }
  let w = |p: usize| if p + 4 <= b.len() { u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize } else { 0 };
  let mut todo = vec![(w(2), b.len())];
  while let Some((start, end)) = todo.pop() {
    if end < 4 || end > b.len() || v.len() > 200 { continue }
    let dir = start + w(end - 4);
    if dir + 2 > b.len() { continue }
    for i in 0..(w(dir) & 0xffff).min(50) {
      let p = dir + 2 + i * 10;
      if p + 10 > b.len() { break }
      v.push((p, start, end));
      let t = w(p) & 0xf800;
      if t == 0x2800 || t == 0x3000 { todo.push((start + w(p + 6), start + w(p + 6) + w(p + 2))) }
    }
  }
  v
}

/// small numbers in the head of the file: (position, 32 bit, big endian, value)
fn numbers(b: &[u8]) -> Vec<(usize, bool, bool, u32)> {
  let mut v = vec![];
  let n = b.len().min(1500);
  let mut i = 0;
  while i + 4 <= n {
    let l = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let e = l.swap_bytes();
    let lim = (b.len() as u32).max(256);
    if l > 0 && l <= lim { v.push((i, true, false, l)) }
    else if e > 0 && e <= lim { v.push((i, true, true, e)) }
    else {
      let l = l & 0xffff;
      if l > 0 && l < 256 { v.push((i, false, false, l)) } else if l > 0 && l & 0xff00 == l { v.push((i, false, true, l >> 8)) }
    }
    i += 2;
  }
  v
}

pub fn bytes_of(c: &Case) -> Vec<u8> {
  let mut dims = (0, 0);
  let mut b = match &c.base {
    Some(s) => {
      let f = if c.tag % 3 == 0 { with_override(TAGS[c.tag as usize / 3 % TAGS.len()], interesting(c.tagval, 4000), || build(s)).0 } else { build(s) };
      dims = (f.exp.width as u32, f.exp.height as u32);
      f.bytes
    }
    None => {
      let mut b = HEADS[c.head as usize % HEADS.len()].to_vec();
      b.extend(Rng::new(c.seed as u64).bytes(c.len as usize));
      if c.head & 0x40 != 0 { for (i, x) in b.iter_mut().enumerate().skip(8) { if i % 3 != 0 { *x &= 3 } } }
      b
    }
  };
  for m in &c.muts {
    let n = b.len();
    if n == 0 { break }
    match m {
      Mut::Byte { at, v } => { let p = pos(*at, n); b[p] ^= (*v).max(1) }
      Mut::Word { at, v, wide, be, even } => {
        let mut p = pos(*at, n); if *even { p &= !1 }
        let x = interesting(*v, n);
        let w: Vec<u8> = if *wide { (if *be { x.to_be_bytes() } else { x.to_le_bytes() }).to_vec() } else { (if *be { (x as u16).to_be_bytes() } else { (x as u16).to_le_bytes() }).to_vec() };
        for (i, y) in w.iter().enumerate() { if p + i < n { b[p + i] = *y } }
      }
      Mut::Truncate(at) => { let p = pos(*at, n); b.truncate(p) }
      Mut::Shave(k) => { let k = (*k as usize).min(n); b.truncate(n - k) }
      Mut::Fill { at, len, v } => { let p = pos(*at, n); for i in p..(p + *len as usize).min(n) { b[i] = *v } }
      Mut::Noise { at, len, seed } => { let p = pos(*at, n); let r = Rng::new(*seed as u64).bytes(*len as usize); for (i, y) in r.iter().enumerate() { if p + i < n { b[p + i] = *y } } }
      Mut::Insert { at, len, seed } => { let p = pos(*at, n); let r = Rng::new(*seed as u64).bytes(*len as usize % 64); b.splice(p..p, r); }
      Mut::Remove { at, len } => { let p = pos(*at, n); let e = (p + *len as usize % 64).min(n); b.drain(p..e); }
      Mut::Copy { from, to, len } => { let (f, t) = (pos(*from, n), pos(*to, n)); let s: Vec<u8> = b[f..(f + *len as usize).min(n)].to_vec(); for (i, y) in s.iter().enumerate() { if t + i < n { b[t + i] = *y } } }
      Mut::Repoint { n: a, m, delta } => {
        let o = offsets(&b);
        if !o.is_empty() {
          let (p, be, _) = o[*a as usize % o.len()];
          let to = (o[*m as usize % o.len()].2 as i64 + *delta as i64).max(0) as u32;
          b[p..p + 4].copy_from_slice(&if be { to.to_be_bytes() } else { to.to_le_bytes() });
        }
      }
      Mut::Field { n: a, v } => {
        let o = numbers(&b);
        if !o.is_empty() {
          let (p, wide, be, old) = o[*a as usize % o.len()];
          let x = if *v >= 228 { old.wrapping_add(*v as u32).wrapping_sub(242) } else { interesting(*v, n) };
          if wide { b[p..p + 4].copy_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
          else { b[p..p + 2].copy_from_slice(&if be { (x as u16).to_be_bytes() } else { (x as u16).to_le_bytes() }) }
        }
      }
      Mut::Dims { w, h } => {
        let (w, h) = (interesting(*w, n), interesting(*h, n));
        let end = n.min(6000);
        let mut i = 0;
        while i + 4 <= end {
          let get = |be: bool| { let x = [b[i], b[i + 1], b[i + 2], b[i + 3]]; if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } };
          let mut step = 2;
          for be in [false, true] {
            let x = get(be);
            let short = if be { x >> 16 } else { x & 0xffff };
            let new = |v: u32| if v <= 1 { None } else if v == dims.0 { Some(w) } else if v == dims.1 { Some(h) } else { None };
            if let Some(v) = new(x) {
              b[i..i + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
              step = 4;
              break;
            }
            // half of a longer number, or one of 16 bits
            if let Some(v) = new(short) {
              b[i..i + 2].copy_from_slice(&if be { (v as u16).to_be_bytes() } else { (v as u16).to_le_bytes() });
              break;
            }
          }
          i += step;
        }
      }
      Mut::Ciff { n: k, v } => {
        let e = heaps(&b);
        if !e.is_empty() {
          let (p, start, end) = e[*k as usize % e.len()];
          let old = u32::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5]]);
          match v & 3 {
            0 => {
              b[p..p + 2].copy_from_slice(&if v & 4 == 0 { 0x300au16 } else { 0x280b }.to_le_bytes());
              b[p + 2..p + 6].copy_from_slice(&(end.wrapping_sub(start) as u32).to_le_bytes());
              b[p + 6..p + 10].copy_from_slice(&0u32.to_le_bytes());
            }
            1 => { let t = b[p + 1]; b[p + 1] = t & 7 | (v >> 2) << 3 }
            2 => b[p + 2..p + 6].copy_from_slice(&(if v & 4 == 0 { interesting(v >> 3, n) } else { old.wrapping_add((*v >> 3) as u32).wrapping_sub(16) }).to_le_bytes()),
            _ => b[p + 6..p + 10].copy_from_slice(&interesting(v >> 2, n).to_le_bytes()),
          }
        }
      }
      Mut::Splice { at } => if let Some(s) = &c.other {
        let o = build(s).bytes;
        let p = pos(*at, n);
        b.truncate(p);
        if p < o.len() { b.extend_from_slice(&o[p..]) }
      }
    }
  }
  b
}

fn mut_strat() -> BoxedStrategy<Mut> {
  let at = || any::<u32>();
  prop_oneof![
    6 => (at(), any::<u8>()).prop_map(|(at, v)| Mut::Byte { at, v }),
    8 => (at(), any::<u8>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(at, v, wide, be, even)| Mut::Word { at, v, wide, be, even }),
    2 => at().prop_map(Mut::Truncate),
    2 => (0u16..300).prop_map(Mut::Shave),
    1 => (at(), 0u16..300, prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(at, len, v)| Mut::Fill { at, len, v }),
    1 => (at(), 0u16..300, any::<u32>()).prop_map(|(at, len, seed)| Mut::Noise { at, len, seed }),
    1 => (at(), any::<u16>(), any::<u32>()).prop_map(|(at, len, seed)| Mut::Insert { at, len, seed }),
    1 => (at(), any::<u16>()).prop_map(|(at, len)| Mut::Remove { at, len }),
    1 => (at(), at(), 0u16..400).prop_map(|(from, to, len)| Mut::Copy { from, to, len }),
    5 => (any::<u16>(), any::<u16>(), prop_oneof![3 => Just(0i8), 1 => -4i8..4]).prop_map(|(n, m, delta)| Mut::Repoint { n, m, delta }),
    6 => (any::<u16>(), any::<u8>()).prop_map(|(n, v)| Mut::Field { n, v }),
    3 => (any::<u8>(), any::<u8>()).prop_map(|(w, h)| Mut::Dims { w, h }),
    2 => (any::<u8>(), any::<u8>()).prop_map(|(n, v)| Mut::Ciff { n, v }),
    1 => at().prop_map(|at| Mut::Splice { at }),
  ].boxed()
}

fn small(mut s: Spec) -> Spec { s.w = s.w.min(80); s.h = s.h.min(40); s }

pub fn mutated_strat(names: Vec<&'static str>) -> BoxedStrategy<Case> {
  let all: Vec<&'static str> = kinds().iter().filter(|k| !k.heavy).map(|k| k.name).collect();
  (spec_strat(names), prop_oneof![8 => Just(None), 1 => spec_strat(all).prop_map(Some)], prop_oneof![1 => 0u8..1, 1 => any::<u8>()], any::<u8>(), any::<u32>(),
   prop_oneof![1 => proptest::collection::vec(mut_strat(), 0..2), 2 => proptest::collection::vec(mut_strat(), 1..7)])
    .prop_map(|(s, o, tag, tagval, seed, muts)| Case { base: Some(small(s)), other: o.map(small), head: 0, len: 0, seed, tag: if tag == 0 { (seed % 132 * 3 % 256) as u8 } else { tag }, tagval, muts }).boxed()
}
pub fn noise_strat() -> BoxedStrategy<Case> {
  (any::<u8>(), prop_oneof![6 => 0u32..400, 2 => 0u32..5000, 1 => 0u32..100_000], any::<u32>(), proptest::collection::vec(mut_strat(), 0..8))
    .prop_map(|(head, len, seed, muts)| Case { base: None, other: None, head, len, seed, tag: 1, tagval: 0, muts }).boxed()
}

fn check(c: &Case) -> Result<Out, String> {
  let b = bytes_of(c);
  let label = match &c.base { Some(s) => s.kind.clone(), None => "noise".into() };
  let t0 = std::time::Instant::now();
  let r = decode(&b);
  let dt = t0.elapsed().as_secs_f64();
  if dt > 3.0 && std::env::var("RLCHECK_TIMING").is_ok() { eprintln!("slow {:.1}s {} {:?}", dt, label, serde_json::to_string(c)) }
  match r {
    Ok(i) => {
      if Some(i.data.len()) != i.width.checked_mul(i.height).and_then(|n| n.checked_mul(i.cpp)) { return Err(format!("{} samples reported as {}x{}x{}", i.data.len(), i.width, i.height, i.cpp)) }
      if i.cpp == 0 { return Err("image with no samples per pixel".into()) }
      out(format!("{} decoded", label), true, hash_bytes(&b))
    }
    Err(e) => {
      if e.trim().is_empty() { return Err("empty error message".into()) }
      out(format!("{} refused", label), true, hash_bytes(&b))
    }
  }
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C10", threads: 0, both_builds: true, assumptions: &["a single decode that uses more than 100 s of CPU time, or more than 24 GB of memory, counts as not returning"],
      rule: "well-formed files of every kind with header fields set to extreme values, bytes changed, parts removed, inserted, repeated, offsets pointed elsewhere (also to themselves), parts of other files spliced in; random data behind every container signature. Every case is non-trivial; distinct by content",
      groups: || {
        let mut v = vec![];
        for k in kinds() {
          let name: &'static str = k.name;
          let (q, t) = if k.heavy { (400, 8000) } else { (8000, 120_000) };
          v.push(group_dyn(name, q, t, Arc::new(move || mutated_strat(vec![name])), check));
        }
        v.push(group("noise", 80_000, 800_000, noise_strat, check));
        v
      } },
  ]
}
