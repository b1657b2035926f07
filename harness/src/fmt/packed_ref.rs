//! Reference packers for uncompressed sample layouts, written from the bit layout.
use crate::bits::*;

/// MSB-first bit packing of `bits`-bit samples, rows padded to `row_align` bytes (1 = none)
pub fn msb(d: &[u16], w: usize, bits: u32, row_align: usize) -> Vec<u8> {
  let mut b = Msb::new();
  for row in d.chunks(w) {
    for &v in row { b.put(v as u32, bits) }
    if row_align > 0 { b.align(8 * row_align) }
  }
  b.finish()
}
/// one continuous MSB-first stream, then bytes swapped inside `unit`-byte little-endian words
pub fn msb_swapped(d: &[u16], bits: u32, unit: usize) -> Vec<u8> {
  let mut b = Msb::new();
  for &v in d { b.put(v as u32, bits) }
  b.align(8 * unit);
  let mut o = b.finish();
  for c in o.chunks_mut(unit) { c.reverse() }
  o
}
/// LSB-first 12-bit packing
pub fn lsb12(d: &[u16], w: usize) -> Vec<u8> {
  let mut o = vec![];
  for row in d.chunks(w) {
    let mut b = Lsb::new();
    for &v in row { b.put(v as u32, 12) }
    o.extend(b.finish());
  }
  o
}
/// 12-bit samples with a control byte after every 10 samples
pub fn control12(d: &[u16], w: usize, be: bool, ctl: u8) -> Vec<u8> {
  let mut o = vec![];
  for row in d.chunks(w) {
    for grp in row.chunks(10) {
      if be { let mut b = Msb::new(); for &v in grp { b.put(v as u32, 12) } o.extend(b.finish()) }
      else { let mut b = Lsb::new(); for &v in grp { b.put(v as u32, 12) } o.extend(b.finish()) }
      o.push(ctl);
    }
  }
  o
}
pub fn u16s(d: &[u16], be: bool) -> Vec<u8> {
  let mut o = Vec::with_capacity(d.len() * 2);
  for &v in d { o.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() }) }
  o
}
/// even rows, then odd rows, 12-bit MSB-first; second field at `second(half_bytes)`
pub fn interlaced12(d: &[u16], w: usize, h: usize, second: impl Fn(usize) -> usize, fill: u8) -> Vec<u8> {
  let half = (h + 1) / 2;
  let mut a: Vec<u16> = vec![];
  let mut b: Vec<u16> = vec![];
  for (r, row) in d.chunks(w).enumerate() { if r % 2 == 0 { a.extend(row) } else { b.extend(row) } }
  let mut o = msb(&a, w, 12, 0);
  let pos = second(half * w * 3 / 2);
  assert!(pos >= o.len());
  o.resize(pos, fill);
  o.extend(msb(&b, w, 12, 0));
  o
}
