//! A TIFF writer whose layout (byte order, order and placement of directories, values and
//! blobs, padding, entry order, unknown entries) is driven by generated parameters.
use crate::util::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub enum V {
  U8(Vec<u8>),
  Str(String),
  U16(Vec<u16>),
  U32(Vec<u32>),
  /// numeric values written as SHORT or LONG according to the layout (LONG if they do not fit)
  Num(Vec<u32>),
  Rat(Vec<(u32, u32)>),
  SRat(Vec<(i32, i32)>),
  Undef(Vec<u8>),
  /// LONG offsets of other objects, plus a constant
  Off(Vec<(usize, u32)>),
  /// (type, count, ready-made data in file byte order)
  Raw(u16, u32, Vec<u8>),
  /// an entry whose data is the given object (type, count); always out of line
  At(u16, u32, usize),
}

#[derive(Clone, Debug)]
enum Obj {
  Ifd { entries: Vec<(u16, V)>, next: Option<usize>, sort: bool },
  Blob { data: Vec<u8>, fixed: Option<usize> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Layout {
  pub be: bool,
  /// 0: canonical placement; otherwise shuffles placement of objects
  pub seed: u32,
  /// maximal padding between objects
  pub pad: u8,
  /// number of unknown entries added to every directory (from 60 on, steps of 20)
  pub unknown: u8,
  /// write numbers as LONG where SHORT would do
  pub long: bool,
  /// leave entries unsorted
  pub unsorted: bool,
  /// bytes of junk after everything
  pub tail: u8,
  /// directories without known entries at the end of the chain of directories
  #[serde(default)]
  pub chain: u8,
  /// a gap of so many megabytes before one of the objects
  #[serde(default)]
  pub far: u8,
}
impl Layout {
  fn unknowns(&self) -> usize { if self.unknown < 60 { self.unknown as usize } else { (self.unknown as usize - 59) * 20 } }
}

#[derive(Clone)]
pub struct Tiff {
  pub lay: Layout,
  objs: Vec<Obj>,
  /// where the TIFF starts in the final file and the value offsets are relative to
  pub start: usize,
  /// objects placed behind all others, in this order
  last: Vec<usize>,
  /// the first directory sits right behind the header
  pub root_at_8: bool,
  thumb: bool,
}

pub fn p16(be: bool, v: u16) -> [u8; 2] { if be { v.to_be_bytes() } else { v.to_le_bytes() } }
pub fn p32(be: bool, v: u32) -> [u8; 4] { if be { v.to_be_bytes() } else { v.to_le_bytes() } }

const UNKNOWN: [u16; 12] = [0x0001, 0x000a, 0x00ff, 0x0107, 0x011a, 0x0132, 0x0213, 0x8298, 0x9003, 0xa405, 0xc65a, 0xfe58];

thread_local! {
  /// value written instead of the given one for a tag, for files that are wrong on purpose
  static OVERRIDE: std::cell::Cell<Option<(u16, u32)>> = std::cell::Cell::new(None);
  static HITS: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
/// runs f with every entry of `tag` replaced; also returns how many were
pub fn with_override<T>(tag: u16, val: u32, f: impl FnOnce() -> T) -> (T, u32) {
  OVERRIDE.with(|o| o.set(Some((tag, val))));
  HITS.with(|h| h.set(0));
  let r = f();
  OVERRIDE.with(|o| o.set(None));
  (r, HITS.with(|h| h.get()))
}

impl Tiff {
  pub fn new(lay: &Layout) -> Tiff { Tiff { lay: lay.clone(), objs: vec![], start: 0, last: vec![], root_at_8: false, thumb: false } }
  pub fn be(&self) -> bool { self.lay.be }
  pub fn ifd(&mut self, mut entries: Vec<(u16, V)>) -> usize {
    OVERRIDE.with(|o| if let Some((tag, val)) = o.get() {
      for e in entries.iter_mut() { if e.0 == tag { e.1 = V::Num(vec![val]); HITS.with(|h| h.set(h.get() + 1)) } }
    });
    for (tag, v) in entries.iter_mut() { if *tag == 0x10f || *tag == 0x110 { self.pad_name(*tag, v) } }
    self.objs.push(Obj::Ifd { entries, next: None, sort: true });
    self.objs.len() - 1
  }
  /// names may be padded with blanks, end at a NUL with anything behind it, or fill their entry
  fn pad_name(&self, tag: u16, v: &mut V) {
    let V::Str(s) = v else { return };
    let mut r = Rng::new(self.lay.seed as u64 ^ (tag as u64) << 32);
    let how = if self.lay.seed == 0 { 0 } else { r.below(16) };
    let mut d = s.as_bytes().to_vec();
    let n = 1 + r.below(20) as usize;
    match how {
      1 => { d.extend(vec![b' '; n]); d.push(0) }
      2 => d = [vec![b' '; n], d, vec![0]].concat(),
      3 => d = [vec![b' '; 1 + n % 3], d, vec![b' '; n]].concat(),
      4 => { d.push(0); d.extend(r.bytes(n)) }
      5 => d.extend(vec![0; n]),
      6 => {}
      _ => return,
    }
    *v = V::Raw(2, d.len() as u32, d);
  }
  pub fn add(&mut self, ifd: usize, tag: u16, v: V) {
    if let Obj::Ifd { entries, .. } = &mut self.objs[ifd] { entries.push((tag, v)) } else { panic!() }
  }
  pub fn chain(&mut self, a: usize, b: usize) {
    if let Obj::Ifd { next, .. } = &mut self.objs[a] { *next = Some(b) } else { panic!() }
  }
  pub fn blob(&mut self, data: Vec<u8>) -> usize {
    self.objs.push(Obj::Blob { data, fixed: None });
    self.objs.len() - 1
  }
  /// a blob at a given absolute position in the TIFF (placed before others are laid out)
  pub fn blob_at(&mut self, data: Vec<u8>, pos: usize) -> usize {
    self.objs.push(Obj::Blob { data, fixed: Some(pos) });
    self.objs.len() - 1
  }
  pub fn put_last(&mut self, o: usize) { self.last.push(o) }

  fn enc(&self, v: &V) -> (u16, u32, Vec<u8>, Vec<(usize, usize, u32)>) {
    let be = self.lay.be;
    let mut d = vec![];
    let mut fix = vec![];
    let (t, c) = match v {
      V::U8(x) => { d = x.clone(); (1, x.len()) }
      V::Str(s) => { d = s.as_bytes().to_vec(); d.push(0); (2, d.len()) }
      V::U16(x) => { for i in x { d.extend_from_slice(&p16(be, *i)) } (3, x.len()) }
      V::U32(x) => { for i in x { d.extend_from_slice(&p32(be, *i)) } (4, x.len()) }
      V::Num(x) => {
        if self.lay.long || x.iter().any(|&i| i > 65535) {
          for i in x { d.extend_from_slice(&p32(be, *i)) }
          (4, x.len())
        } else {
          for i in x { d.extend_from_slice(&p16(be, *i as u16)) }
          (3, x.len())
        }
      }
      V::Rat(x) => { for i in x { d.extend_from_slice(&p32(be, i.0)); d.extend_from_slice(&p32(be, i.1)) } (5, x.len()) }
      V::SRat(x) => { for i in x { d.extend_from_slice(&p32(be, i.0 as u32)); d.extend_from_slice(&p32(be, i.1 as u32)) } (10, x.len()) }
      V::Undef(x) => { d = x.clone(); (7, x.len()) }
      V::Off(x) => {
        for (k, (o, plus)) in x.iter().enumerate() { fix.push((k * 4, *o, *plus)); d.extend_from_slice(&[0; 4]) }
        (4, x.len())
      }
      V::Raw(t, c, x) => { d = x.clone(); (*t, *c as usize) }
      V::At(t, c, _) => { (*t, *c as usize) }
    };
    (t, c as u32, d, fix)
  }

  /// Lay everything out; `root` is the first directory. Returns the bytes (starting at
  /// `self.start` zero-based, i.e. without a prefix) and the offset of every object.
  pub fn build(&self, root: usize) -> (Vec<u8>, Vec<usize>) {
    self.build_with(root, b"")
  }
  pub fn build_with(&self, root: usize, magic: &[u8]) -> (Vec<u8>, Vec<usize>) {
    if self.lay.seed % 4 == 1 && !self.thumb {
      // a thumbnail directory at the end of the chain that repeats entries of the first one
      let mut me = self.clone();
      me.thumb = true;
      let mut rng = Rng::new(self.lay.seed as u64 ^ 0x7073);
      let mut ents = vec![];
      if let Obj::Ifd { entries, .. } = &self.objs[root] {
        for (tag, _) in entries {
          match tag {
            0x112 => ents.push((0x112, V::Num(vec![1 + rng.below(8) as u32]))),
            0x10f if rng.bool() => ents.push((0x10f, V::Str("Thumb Maker".into()))),
            0x110 if rng.bool() => ents.push((0x110, V::Str("Thumbnail".into()))),
            _ => {}
          }
        }
      }
      if ents.len() > 0 {
        let mut end = root;
        loop { match &me.objs[end] { Obj::Ifd { next: Some(n), .. } => end = *n, _ => break } }
        me.objs.push(Obj::Ifd { entries: ents, next: None, sort: true });
        let n = me.objs.len() - 1;
        me.chain(end, n);
      }
      let (b, mut o) = me.build_with(root, magic);
      o.truncate(self.objs.len());
      return (b, o)
    }
    if self.lay.chain > 0 {
      let mut me = self.clone();
      let mut end = root;
      loop { match &me.objs[end] { Obj::Ifd { next: Some(n), .. } => end = *n, _ => break } }
      let mut rng = Rng::new(self.lay.seed as u64 ^ 0xC4A1);
      for _ in 0..self.lay.chain {
        me.objs.push(Obj::Ifd { entries: vec![(UNKNOWN[rng.below(12) as usize], V::U32(vec![rng.u64() as u32]))], next: None, sort: true });
        let n = me.objs.len() - 1;
        me.chain(end, n);
        end = n;
      }
      me.lay.chain = 0;
      // and more sub-directories without known entries around those there are
      let k = rng.below(self.lay.chain as u64 + 1).min(20) as usize;
      let front = rng.below(k as u64 + 1) as usize;
      let dummies: Vec<usize> = (0..k).map(|_| {
        me.objs.push(Obj::Ifd { entries: vec![(UNKNOWN[rng.below(12) as usize], V::U32(vec![rng.u64() as u32]))], next: None, sort: true });
        me.objs.len() - 1
      }).collect();
      let isdir: Vec<bool> = me.objs.iter().map(|o| matches!(o, Obj::Ifd { .. })).collect();
      if let Obj::Ifd { entries, .. } = &mut me.objs[root] {
        for (tag, v) in entries.iter_mut() {
          if *tag != 0x14A { continue }
          if let V::Off(x) = v { if x.iter().all(|(o, p)| *p == 0 && isdir[*o]) {
            let mut y: Vec<(usize, u32)> = dummies[..front].iter().map(|&d| (d, 0)).collect();
            y.extend(x.iter().cloned());
            y.extend(dummies[front..].iter().map(|&d| (d, 0)));
            *x = y;
          } }
        }
      }
      let (b, mut o) = me.build_with(root, magic);
      o.truncate(self.objs.len());
      return (b, o)
    }
    let be = self.lay.be;
    let mut rng = Rng::new(self.lay.seed as u64 ^ 0x71FF);
    let n = self.objs.len();
    // encode directories
    struct E { tag: u16, t: u16, c: u32, d: Vec<u8>, fix: Vec<(usize, usize, u32)>, at: Option<usize> }
    let mut dirs: Vec<Option<Vec<E>>> = vec![];
    for o in &self.objs {
      dirs.push(match o {
        Obj::Ifd { entries, sort, .. } => {
          let mut es: Vec<E> = entries.iter().map(|(tag, v)| {
            let (t, c, d, fix) = self.enc(v);
            E { tag: *tag, t, c, d, fix, at: if let V::At(_, _, o) = v { Some(*o) } else { None } }
          }).collect();
          for k in 0..self.lay.unknowns() {
            let tag = UNKNOWN[(rng.below(12) as usize + k) % 12];
            let t = [1u16, 2, 3, 4, 5, 7][rng.below(6) as usize];
            let c = 1 + rng.below(6) as usize;
            let sz = c * match t { 1 | 2 | 7 => 1, 3 => 2, 4 => 4, _ => 8 };
            es.push(E { tag, t, c: c as u32, d: rng.bytes(sz), fix: vec![], at: None });
          }
          if *sort && !self.lay.unsorted { es.sort_by_key(|e| e.tag) }
          else if *sort { for i in (1..es.len()).rev() { let j = rng.below(i as u64 + 1) as usize; es.swap(i, j) } }
          Some(es)
        }
        _ => None,
      });
    }
    // placeable units: objects, plus out-of-line values (dir, entry)
    #[derive(Clone, Copy, PartialEq)]
    enum U { O(usize), X(usize, usize) }
    let mut units: Vec<U> = vec![];
    for i in 0..n {
      if !self.last.contains(&i) { if let Obj::Blob { fixed: Some(_), .. } = self.objs[i] {} else { units.push(U::O(i)) } }
      if let Some(es) = &dirs[i] {
        for (k, e) in es.iter().enumerate() { if e.d.len() > 4 && e.at.is_none() { units.push(U::X(i, k)) } }
      }
    }
    if self.lay.seed != 0 {
      for i in (1..units.len()).rev() { let j = rng.below(i as u64 + 1) as usize; units.swap(i, j) }
    }
    if self.root_at_8 {
      units.retain(|u| *u != U::O(root));
      units.insert(0, U::O(root));
    }
    for &l in &self.last { if let Obj::Blob { fixed: Some(_), .. } = self.objs[l] {} else { units.push(U::O(l)) } }
    // fixed blobs: other things go after them unless small
    let mut off_o = vec![0usize; n];
    let mut off_x: std::collections::HashMap<(usize, usize), usize> = Default::default();
    let mut pos = 8usize;
    for i in 0..n { if let Obj::Blob { data, fixed: Some(p) } = &self.objs[i] { off_o[i] = *p; pos = pos.max(p + data.len()); } }
    let gap_at = if self.lay.far > 0 && units.len() > 0 { rng.below(units.len() as u64) as usize } else { usize::MAX };
    for (uk, u) in units.iter().enumerate() {
      if uk == gap_at && !(self.root_at_8 && *u == U::O(root)) { pos += (self.lay.far as usize) << 20 }
      if !(self.root_at_8 && *u == U::O(root)) { pos += rng.below(self.lay.pad as u64 + 1) as usize; }
      if pos % 2 == 1 { pos += 1 }
      match *u {
        U::O(i) => {
          off_o[i] = pos;
          pos += match &self.objs[i] { Obj::Blob { data, .. } => data.len(), Obj::Ifd { .. } => 2 + 12 * dirs[i].as_ref().unwrap().len() + 4 };
        }
        U::X(i, k) => { off_x.insert((i, k), pos); pos += dirs[i].as_ref().unwrap()[k].d.len(); }
      }
    }
    let end = pos + self.lay.tail as usize;
    // background: junk so that reads of the wrong place show
    let mut buf = if self.lay.pad > 0 { Rng::new(self.lay.seed as u64 ^ 0xBAD).bytes(end.min(1 << 20)).into_iter().cycle().take(end).collect() } else { vec![0u8; end] };
    buf[0..2].copy_from_slice(if be { b"MM" } else { b"II" });
    buf[2..4].copy_from_slice(&p16(be, 42));
    if magic.len() >= 4 { buf[0..4].copy_from_slice(&magic[0..4]) }
    buf[4..8].copy_from_slice(&p32(be, off_o[root] as u32));
    for i in 0..n {
      match &self.objs[i] {
        Obj::Blob { data, .. } => buf[off_o[i]..off_o[i] + data.len()].copy_from_slice(data),
        Obj::Ifd { next, .. } => {
          let es = dirs[i].as_ref().unwrap();
          let o = off_o[i];
          buf[o..o + 2].copy_from_slice(&p16(be, es.len() as u16));
          for (k, e) in es.iter().enumerate() {
            let p = o + 2 + 12 * k;
            buf[p..p + 2].copy_from_slice(&p16(be, e.tag));
            buf[p + 2..p + 4].copy_from_slice(&p16(be, e.t));
            buf[p + 4..p + 8].copy_from_slice(&p32(be, e.c));
            let mut d = e.d.clone();
            for (at, ob, plus) in &e.fix { d[*at..*at + 4].copy_from_slice(&p32(be, (off_o[*ob] + self.start_rel()) as u32 + plus)); }
            if let Some(a) = e.at {
              buf[p + 8..p + 12].copy_from_slice(&p32(be, off_o[a] as u32));
            } else if d.len() > 4 {
              let x = off_x[&(i, k)];
              buf[p + 8..p + 12].copy_from_slice(&p32(be, x as u32));
              buf[x..x + d.len()].copy_from_slice(&d);
            } else {
              for b in &mut buf[p + 8..p + 12] { *b = 0 }
              buf[p + 8..p + 8 + d.len()].copy_from_slice(&d);
            }
          }
          let p = o + 2 + 12 * es.len();
          let nx = next.map_or(0, |x| off_o[x]);
          buf[p..p + 4].copy_from_slice(&p32(be, nx as u32));
        }
      }
    }
    (buf, off_o)
  }
  fn start_rel(&self) -> usize { 0 }
}
