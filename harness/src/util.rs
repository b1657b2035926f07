//! Small deterministic helpers: expansion of a generated seed into bulk data, hashing,
//! scratch files.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

/// splitmix64; expands seeds that proptest generated into bulk content.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Rng { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
  pub fn u64(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
  pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n { v.extend_from_slice(&self.u64().to_le_bytes()); }
    v.truncate(n);
    v
  }
  pub fn f64(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  let mut it = b.chunks_exact(8);
  for c in &mut it {
    let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
    h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
  }
  for &x in it.remainder() { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
  h ^ (h >> 29)
}
pub fn hash_u16(b: &[u16]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(7); }
  h ^ (h >> 29)
}

/// How sample values of one image are generated (expanded from generated fields only).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pix { pub style: u8, pub seed: u32 }

impl Pix {
  /// n samples, `w` per row, each in 0..=max
  pub fn gen(&self, n: usize, w: usize, max: u16) -> Vec<u16> {
    let mut r = Rng::new(self.seed as u64);
    let m = max as u64 + 1;
    let w = w.max(1);
    match self.style % 8 {
      0 => vec![0; n],
      1 => (0..n).map(|i| ((i as u64 * 37 + (i / w) as u64 * 11 + self.seed as u64) % m) as u16).collect(),
      2 => (0..n).map(|_| r.below(m) as u16).collect(),
      3 => {
        let mut cur = [r.below(m) as i64; 4];
        (0..n).map(|i| {
          let k = (i % 2) + 2 * ((i / w) % 2);
          cur[k] = (cur[k] + r.range(-9, 9)).max(0).min(max as i64);
          cur[k] as u16
        }).collect()
      }
      4 => (0..n).map(|_| if r.bool() { max } else { 0 }).collect(),
      5 => {
        let bg = r.below(m) as u16;
        (0..n).map(|_| if r.below(17) == 0 { r.below(m) as u16 } else { bg }).collect()
      }
      6 => {
        // each row its own regime, with geometric magnitudes around a base
        let mut out = Vec::with_capacity(n);
        let mut base = 0i64; let mut mag = 0;
        for i in 0..n {
          if i % w == 0 { base = r.below(m) as i64; mag = r.below(17); }
          let d = if mag == 0 { 0 } else { r.range(-(1 << (mag - 1)), 1 << (mag - 1)) };
          out.push((base + d).max(0).min(max as i64) as u16);
        }
        out
      }
      _ => {
        // runs of every difference magnitude: each step has a random bit length
        let mut cur = [r.below(m) as i64; 2];
        (0..n).map(|i| {
          let mag = r.below(17);
          let d = if mag == 0 { 0 } else { r.range(1 << (mag - 1), (1 << mag) - 1) };
          let d = if r.bool() { d } else { -d };
          cur[i % 2] = (cur[i % 2] + d).rem_euclid(m as i64);
          cur[i % 2] as u16
        }).collect()
      }
    }
  }
}

thread_local! { static SLOT: RefCell<Option<(PathBuf, PathBuf)>> = RefCell::new(None); }
static NSLOT: AtomicUsize = AtomicUsize::new(0);

/// Directory made by the supervisor (or by ourselves) that holds every file a check writes.
pub fn scratch_dir() -> PathBuf {
  PathBuf::from(std::env::var("RLCHECK_SCRATCH").expect("RLCHECK_SCRATCH"))
}

/// (raw file, case file) of this thread
pub fn slot() -> (PathBuf, PathBuf) {
  SLOT.with(|s| {
    let mut s = s.borrow_mut();
    if s.is_none() {
      let k = NSLOT.fetch_add(1, Ordering::SeqCst);
      let d = scratch_dir();
      *s = Some((d.join(format!("t{}.raw", k)), d.join(format!("t{}.case", k))));
    }
    s.clone().unwrap()
  })
}

pub fn write_scratch(bytes: &[u8]) -> String {
  let (p, _) = slot();
  std::fs::write(&p, bytes).expect("write scratch file");
  p.to_str().unwrap().to_string()
}

/// Decode bytes through the public entry point.
pub fn decode(bytes: &[u8]) -> Result<rawloader::RawImage, String> {
  rawloader::decode(&write_scratch(bytes))
}

pub fn repo() -> PathBuf { PathBuf::from(std::env::var("VERIF_REPO").unwrap_or("/repo".into())) }
