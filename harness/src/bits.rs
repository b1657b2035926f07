//! Bit writers for the byte/bit orders used by raw formats.
pub struct Msb { pub out: Vec<u8>, acc: u64, n: u32 }
impl Msb {
  pub fn new() -> Msb { Msb { out: vec![], acc: 0, n: 0 } }
  pub fn put(&mut self, v: u32, bits: u32) {
    if bits == 0 { return; }
    debug_assert!(bits <= 32);
    let v = (v as u64) & ((1u64 << bits) - 1);
    self.acc = (self.acc << bits) | v;
    self.n += bits;
    while self.n >= 8 { self.n -= 8; self.out.push((self.acc >> self.n) as u8); }
    self.acc &= (1 << self.n) - 1;
  }
  pub fn bitpos(&self) -> usize { self.out.len() * 8 + self.n as usize }
  pub fn align(&mut self, bits: usize) { while self.bitpos() % bits != 0 { self.put(0, 1) } }
  pub fn finish(mut self) -> Vec<u8> { self.align(8); self.out }
  /// bytes regrouped in little-endian 32-bit words (MSB-first inside the word)
  pub fn finish_le32(mut self) -> Vec<u8> {
    self.align(32);
    for c in self.out.chunks_mut(4) { c.reverse() }
    self.out
  }
  /// JPEG byte stuffing
  pub fn finish_jpeg(mut self) -> Vec<u8> {
    while self.bitpos() % 8 != 0 { self.put(1, 1) }
    let mut o = Vec::with_capacity(self.out.len() + 16);
    for b in self.out { o.push(b); if b == 0xff { o.push(0) } }
    o
  }
}
pub struct Lsb { pub out: Vec<u8>, acc: u64, n: u32 }
impl Lsb {
  pub fn new() -> Lsb { Lsb { out: vec![], acc: 0, n: 0 } }
  pub fn put(&mut self, v: u32, bits: u32) {
    if bits == 0 { return; }
    let v = (v as u64) & ((1u64 << bits) - 1);
    self.acc |= v << self.n;
    self.n += bits;
    while self.n >= 8 { self.out.push(self.acc as u8); self.acc >>= 8; self.n -= 8; }
  }
  pub fn finish(mut self) -> Vec<u8> { if self.n > 0 { self.out.push(self.acc as u8) } self.out }
}
