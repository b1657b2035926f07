//! Medium format backs: Leaf (MOS), Phase One / Leaf (IIQ), Hasselblad (3FR).
use super::*;
use super::packed_ref as pk;
use crate::bits::*;
use crate::ljpegw::*;

pub static KINDS: &[Kind] = &[
  Kind { name: "mos-uncompressed", class: "packed", cams: is_mos, build: |s, c| mos(s, c, false), heavy: false },
  Kind { name: "mos-ljpeg", class: "ljpeg", cams: is_mos, build: |s, c| mos(s, c, true), heavy: false },
  Kind { name: "iiq", class: "vendor", cams: |c| (c.make == "Leaf" && c.model.starts_with("Credo")) || c.make == "Phase One A/S", build: iiq, heavy: false },
  Kind { name: "3fr", class: "ljpeg", cams: |c| c.make == "Hasselblad" && c.mode.is_empty(), build: tfr, heavy: false },
];
fn is_mos(c: &Cam) -> bool { c.vendor == "leaf" && !c.model.starts_with("Credo") && c.mode.is_empty() }

fn mos(s: &Spec, c: &Cam, compressed: bool) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x305);
  let (w, h) = dims(s, c, if compressed { 2 } else { 1 }, 1);
  let prec = if compressed { 12 + s.opt[1] as u32 % 5 } else { 16 };
  let d = s.pix.gen(w * h, w, ((1u32 << prec) - 1) as u16);
  let (raw, comp) = if compressed {
    // coded rows, eight to a strip, predictors restart with each strip
    let mut coded = d.clone();
    if c.hint("interlaced") {
      for r in 0..h {
        let o = if r & 1 == 1 { h - 1 - r / 2 } else { r / 2 };
        coded[r * w..(r + 1) * w].copy_from_slice(&d[o * w..(o + 1) * w]);
      }
    }
    let nt = 1 + rng.below(2) as usize;
    let sel = [rng.below(nt as u64) as usize, rng.below(nt as u64) as usize];
    let sos: Vec<u8> = if s.opt[2] & 1 == 0 { vec![0, 1] } else { rng.bytes(2) };
    let strips: Vec<Vec<(usize, i32)>> = coded.chunks(8 * w).map(|strip| strip.iter().enumerate().map(|(i, &v)| {
      let (y, x) = (i / w, i % w);
      let p = if x >= 2 { strip[i - 2] as i32 } else if y > 0 { strip[i - w] as i32 } else { 1 << (prec - 1) };
      (sel[x & 1], wrap(v as i32 - p))
    }).collect()).collect();
    let t = tables_for(nt, &strips.concat(), &mut rng);
    let mut o = headers(prec, 1 + rng.below(9000) as usize, 1 + rng.below(9000) as usize, 2, &[0x11, 0x11], &t, &sel, 1, &[0, 1], &sos, &mut rng);
    for (k, strip) in strips.iter().enumerate() {
      if k > 0 { o.extend([0xff, 0xd0 + ((k - 1) % 8) as u8]) }
      let mut b = Msb::new();
      for &(n, d) in strip { t[n].diff(&mut b, d, true) }
      o.extend(b.finish_jpeg());
    }
    o.extend([0xff, 0xd9]);
    o.extend(rng.bytes(8));
    (o, if s.opt[2] & 2 == 0 { 7 } else { 99 })
  } else { (pk::u16s(&d, s.lay.be), 1) };
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(raw);
  let xmp = format!("<?xpacket?><rdf:RDF><tiff:Make>{}</tiff:Make><x/><tiff:Model>{}{}</tiff:Model></rdf:RDF>", c.make, c.model, ["(LI300119   )/Large Format", "(serial)", ""][s.opt[3] as usize % 3]);
  let mut main = vec![(0x131, V::Str("Camera Library".into())), (0x2BC, if s.opt[3] & 8 == 0 { V::U8(xmp.into_bytes()) } else { V::Str(xmp) })];
  // neutral object somewhere in the vendor metadata
  let nums = [1 + s.wb[0] as u32, s.wb[1] as u32, s.wb[2] as u32, s.wb[3] as u32];
  let mut meta: Vec<u8> = (0..rng.below(200)).map(|_| rng.u64() as u8 & 0x7f).collect();
  let wb = if s.opt[4] % 4 == 0 { meta.extend(vec![b'x'; 100]); [NAN; 4] } else {
    let start = meta.len();
    meta.extend(b"NeutObj_neutrals");
    meta.extend(rng.bytes(28));
    meta.extend(format!("{}\n{}\n{}\n{}{}\0", nums[0], nums[1], nums[2], nums[3], if s.opt[4] & 4 == 0 { "\n" } else { "" }).bytes());
    // the section has at least this size
    while meta.len() < start + 71 { meta.push(rng.u64() as u8) }
    if s.opt[4] & 8 == 0 { meta.extend(rng.bytes(60)) }
    let n = nums[0] as f32;
    [n / nums[1] as f32, n / nums[2] as f32, n / nums[3] as f32, NAN]
  };
  main.push((0x8606, V::Undef(meta)));
  let rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0x103, V::Num(vec![comp])), (0x144, V::Off(vec![(rb, 0)]))];
  let root = super::misc::two_ifds(&mut t, main, rawd, s.opt[0]);
  let (bytes, _) = t.build(root);
  let mut exp = Expect::from_cam(c, w, h, wb, Data::Exact(d), 0);
  exp.orient = 0;
  Sample { bytes, exp, label: format!("{}-comp{}-{}{}", s.kind, comp, prec, if c.hint("interlaced") { "-interlaced" } else { "" }) }
}

const LENS: [u32; 10] = [8, 7, 6, 9, 11, 10, 5, 12, 14, 13];

fn iiq(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x119);
  let (w, h) = dims(s, c, if s.opt[1] & 3 == 0 { 1 } else { 2 }, 1);
  let d = s.pix.gen(w * h, w, if s.opt[1] & 4 == 0 { 65535 } else { 16383 });
  let mut rows: Vec<Vec<u8>> = vec![];
  for y in 0..h {
    let row = &d[y * w..(y + 1) * w];
    let mut b = Msb::new();
    let mut pred = [0i32; 2];
    let mut len = [0u32; 2];
    let whole = w & !7;
    for x in 0..w {
      if x >= whole { len = [14, 14] } else if x & 7 == 0 {
        for i in 0..2 {
          // lengths that can code the four samples of this phase
          let fits = |l: u32| { let mut p = pred[i]; (0..4).all(|k| { let v = row[x + 2 * k + i] as i32; let e = v - p - 1 + (1 << (l - 1)); p = v; l == 14 || (e >= 0 && e < 1 << l) }) };
          let ok: Vec<usize> = (0..10).filter(|&k| fits(LENS[k])).collect();
          if len[i] != 0 && fits(len[i]) && rng.below(3) > 0 { b.put(1, 1) }
          else {
            let best = *ok.iter().min_by_key(|&&k| LENS[k]).unwrap();
            let k = if rng.bool() { best } else { ok[rng.below(ok.len() as u64) as usize] };
            len[i] = LENS[k];
            let j = k / 2 + 1;
            b.put(0, j as u32);
            if j < 5 { b.put(1, 1) }
            b.put(k as u32 & 1, 1);
          }
        }
      }
      let (i, v) = (x & 1, row[x] as i32);
      if len[i] == 14 { b.put(v as u32, 16) } else { b.put((v - pred[i] - 1 + (1 << (len[i] - 1))) as u32, len[i]) }
      pred[i] = v;
    }
    rows.push(b.finish_le32());
  }
  // rows in any order, found by the offset table
  let mut order: Vec<usize> = (0..h).collect();
  if s.opt[2] & 1 == 0 { for i in (1..h).rev() { let j = rng.below(i as u64 + 1) as usize; order.swap(i, j) } }
  let mut data = rng.bytes(4 * (s.opt[2] as usize >> 1) % 40);
  let mut offs = vec![0u32; h];
  for &y in &order { offs[y] = data.len() as u32; data.extend(&rows[y]); if s.opt[2] & 2 == 0 { data.extend(rng.bytes(4)) } }
  data.extend(rng.bytes(16));
  let strips: Vec<u8> = offs.iter().flat_map(|o| o.to_le_bytes()).collect();
  let wbv = [s.wb[0] as f32 / 1024.0, s.wb[1] as f32 / 1024.0, s.wb[2] as f32 / 1024.0];
  let black = match s.opt[3] % 3 { 0 => s.opt[3] as u32 % 8192, 1 => s.opt[3] as u32, _ => (s.opt[3] as u32) << 2 | s.opt[3] as u32 % 4 };
  let mut t = Tiff::new(&s.lay);
  // the first twenty bytes are the two headers
  t.blob_at(rng.bytes(12), 8);
  let (db, sb) = (t.blob(data), t.blob(strips));
  let wbb = t.blob(wbv.iter().flat_map(|f| f.to_le_bytes()).collect());
  let mut ents = vec![(0x107u32, 0u32, Some(wbb)), (0x108, w as u32, None), (0x109, h as u32, None), (0x10f, 0, Some(db)), (0x21c, 0, Some(sb)), (0x21d, black, None)];
  for k in 0..s.opt[4] as u32 % 5 { ents.push((0x400 + k, rng.u64() as u32, None)) }
  if s.opt[4] & 8 == 0 { for i in (1..ents.len()).rev() { let j = rng.below(i as u64 + 1) as usize; ents.swap(i, j) } }
  let dir = t.blob(vec![0; 8 + 16 * ents.len()]);
  let root = { let e = id_entries(c, s.orient); t.ifd(e) };
  let (mut bytes, off) = t.build(root);
  let at = off[dir];
  bytes[16..20].copy_from_slice(&((at - 8) as u32).to_le_bytes());
  bytes[at..at + 4].copy_from_slice(&(ents.len() as u32).to_le_bytes());
  for (k, (tag, v, ob)) in ents.iter().enumerate() {
    let p = at + 8 + 16 * k;
    let v = ob.map_or(*v, |o| off[o] as u32 - 8);
    bytes[p..p + 4].copy_from_slice(&tag.to_le_bytes());
    bytes[p + 4..p + 12].copy_from_slice(&rng.bytes(8));
    bytes[p + 12..p + 16].copy_from_slice(&v.to_le_bytes());
  }
  let mut exp = Expect::from_cam(c, w, h, [wbv[0], wbv[1], wbv[2], NAN], Data::Exact(d), s.orient);
  exp.black = Black::Fixed([(black >> 2) as u16; 4]);
  Sample { bytes, exp, label: format!("iiq{}", if w % 8 == 0 { "" } else { "-tail" }) }
}

fn tfr(s: &Spec, c: &Cam) -> Sample {
  let mut rng = Rng::new(s.lay.seed as u64 ^ 0x3F);
  let (w, h) = dims(s, c, 2, 1);
  let d = s.pix.gen(w * h, w, 65535);
  let cps = 1 + rng.below(2) as usize;
  let mut coded = vec![];
  for row in d.chunks(w) {
    let mut p = [0x8000i32; 2];
    for (x, &v) in row.iter().enumerate() { coded.push((0, wrap(v as i32 - p[x & 1]))); p[x & 1] = v as i32 }
  }
  let t1 = tables_for(1, &coded, &mut rng);
  let base = rng.below(2) as u8;
  let ids: Vec<u8> = (0..cps).map(|k| base + k as u8).collect();
  let mut o = headers(16, w, h, cps, &vec![0x11; cps], &t1, &vec![0; cps], 8, &ids, &ids, &mut rng);
  let mut b = Msb::new();
  for two in coded.chunks(2) {
    for k in 0..2 { t1[0].sym(&mut b, cat(two[k].1) as usize) }
    for k in 0..2 { t1[0].extra(&mut b, two[k].1, cat(two[k].1), true) }
  }
  o.extend(b.finish_le32());
  o.extend(rng.bytes(8));
  let mut t = Tiff::new(&s.lay);
  let rb = t.blob(o);
  let (n, q) = ([s.wb[0] as u32, s.wb[1] as u32, s.wb[2] as u32], 1 + s.wb[3] as u32);
  let mut main = id_entries(c, s.orient);
  // fractions are not always in lowest terms
  let k = if rng.bool() { 1 } else { u32::MAX / n.iter().cloned().max().unwrap().max(q) };
  main.push((0xC628, V::Rat(n.iter().map(|&x| (x * k, q * k)).collect())));
  let rawd = vec![(0x100, V::Num(vec![w as u32])), (0x101, V::Num(vec![h as u32])), (0xC61D, V::Num(vec![65535])), (0x111, V::Off(vec![(rb, 0)]))];
  let root = super::misc::two_ifds(&mut t, main, rawd, s.opt[0]);
  let (bytes, _) = t.build(root);
  let f = |x: u32| 1.0 / (x as f32 / q as f32);
  Sample { bytes, exp: Expect::from_cam(c, w, h, [f(n[0]), f(n[1]), f(n[2]), NAN], Data::Exact(d), s.orient), label: "3fr".into() }
}
