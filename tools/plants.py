# Planted changes. demo: the demonstration program in tools/demos.
P = []
def plant(id, prop, file, old, new, needs, breaks, demo='decode', nth=0, extra=None):
    P.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, demo=demo, edits=[(file, old, new, nth)] + (extra or [])))
D='src/decoders/'; I='src/imageops/'
plant('interlaced-odd-height','C01',D+'packed.rs','  let half = (height+1) >> 1;\n  // Second field','  let half = height >> 1;\n  // Second field',
  'an interlaced ORF of odd height whose first field ends just behind a 2048 byte boundary','the second field is read from the wrong block, all odd rows are wrong')
plant('wcontrol-perline','C01',D+'packed.rs','  let perline = width * 12 / 8 + ((width+2) / 10);','  let perline = width * 12 / 8 + (width / 10);',
  'an Olympus file with control bytes, a width of remainder 8 modulo 10 and more than one row','rows after the first are shifted by a byte each')
plant('skip-table','C02',D+'ljpeg/decompressors.rs','      try!(htable1.huff_decode(&mut pump));\n      try!(htable2.huff_decode(&mut pump));\n      try!(htable3.huff_decode(&mut pump));\n    }','      try!(htable1.huff_decode(&mut pump));\n      try!(htable2.huff_decode(&mut pump));\n      try!(htable2.huff_decode(&mut pump));\n    }',
  'a three component tile that sticks out of the image on the right, with different tables for the second and third component','rows after the first are decoded from the wrong bits')
plant('huff-long-code','C02',D+'ljpeg/huffman.rs','    while code as i32 > self.maxcode[l] {\n      let temp = pump.get_bits(1) as usize;','    while code as i32 > self.maxcode[l] && l < 15 {\n      let temp = pump.get_bits(1) as usize;',
  'a Huffman table with codes of 16 bits','differences coded with a 16 bit code are refused or wrong')
plant('stuffing-tail','C02',D+'pumps.rs','         self.buffer[self.pos+3] != 0xff {','         (self.buffer[self.pos+3] != 0xff || self.buffer[self.pos+2] == 0) {',
  'an 0xff byte of the entropy coded data that is the fourth of a group and follows a zero byte','the stuffed zero is taken as data, everything after it is wrong')
plant('orf-carry','C03',D+'orf.rs','acarry[s][2] = if acarry[s][0] > 16 { 0 } else { acarry[s][2] + 1 };','acarry[s][2] = if acarry[s][0] >= 16 { 0 } else { acarry[s][2] + 1 };',
  'a carry of exactly 16 in compressed Olympus data','the number of bits of the following samples is wrong')
plant('orf-pred','C03',D+'orf.rs','if left_minus_nw.abs() > 32 || up_minus_nw.abs() > 32 {','if left_minus_nw.abs() > 32 || up_minus_nw.abs() >= 32 {',
  'a neighbour difference of exactly 32 with the other one of opposite sign and small','wrong predictor from there on')
plant('rw2-skip','C03',D+'rw2.rs','let skip = ((width * row * 9) + (width/14 * 2 * row)) / 8;','let skip = ((width * row * 9) / 8) + (width/14 * 2 * row) / 8;',
  'widths for which both parts have fractional bytes at a multiple of five rows','five-line blocks start at the wrong byte')
plant('srw3-average','C03',D+'srw.rs','              (out[refpixel] + out[refpixel+2] + 1) >> 1','              (out[refpixel] >> 1) + ((out[refpixel+2] + 1) >> 1)',
  'two even reference samples ... an odd and an even one in averaging motion modes','samples off by one in averaged blocks')
plant('arw1-zeros','C03',D+'arw.rs','pump.get_bits(cmp::min(13, zeros+1));','pump.get_bits(cmp::min(12, zeros+1));',
  'differences with the longest length codes','the stream gets out of step')
plant('iiq-tail','C03',D+'iiq.rs','        if col >= (width & 0xfffffff8) {','        if col >= (width & 0xfffffffc) {',
  'a width with a remainder of 4 to 7 modulo 8','the last columns are decoded with the wrong lengths')
plant('nef-split-14','C04',D+'nef.rs','        htable = try!(self.create_hufftable(huff_select+1, bps));','        htable = try!(self.create_hufftable(if bps == 12 {1} else {huff_select}, bps));',
  'a 14 bit lossy Nikon file with a split row inside the image','the second table is not used behind the split')
plant('arw2-shift','C04',D+'arw.rs','(32-(delta.leading_zeros() as i32)) - 7) as u32;','(32-(delta.saturating_sub(1).leading_zeros() as i32)) - 7) as u32;',
  'a block whose range is exactly a power of two of at least 128','samples of the block are scaled by half')
plant('dcr-seg','C04',D+'dcr.rs','    if (size & 7) == 4 {','    if (size & 15) == 4 {',
  'a last segment of a row with a size of 12 modulo 16','the stream gets out of step')
plant('dither-top','C04',D+'basics.rs','let upper = if i < (table.len()-1) {table[i+1]} else {center};','let upper = if i < (table.len()-1) {table[i+1]} else {65535};',
  'the last entry of a curve','samples with the last symbol decode above the curve')
plant('alias-clean','C05',D+'mod.rs','          mcam.clean_model = clean_model.clone();','          if mcam.mode == "" { mcam.clean_model = clean_model.clone(); }',
  'an alias of a camera with modes, used in one of the modes','the clean name of the main model is reported')
plant('nef-serial','C06',D+'nef.rs','          for i in 0..serial.count() {','          for i in 0..::std::cmp::min(serial.count(), 8) {',
  'a serial number of more than eight characters on a camera with encrypted white balance','white balance decrypted with the wrong key')
plant('pana-wb-type','C06',D+'rw2.rs','let b = fetch_tag!(self.tiff, Tag::PanaWBs2B).get_u32(0) as f32;','let b = (fetch_tag!(self.tiff, Tag::PanaWBs2B).get_u32(0) & 0x7ff) as f32;',
  'a blue coefficient above 2047 in the second form of the entry','the blue coefficient is reported modulo 2048')
plant('blackarea-both','C07',D+'image.rs','      for row in 0..height {\n        for col in camera.blackareav.0','      for row in camera.blackareah.1..height {\n        for col in camera.blackareav.0',
  'a camera with masked rows as well as masked columns','part of the masked columns is left out of the black level')
plant('tiff-inline','C09',D+'tiff.rs','    let doffset: usize = if bytesize <= 4 {','    let doffset: usize = if bytesize < 4 || (bytesize == 4 && count < 4) {',
  'an entry of four single bytes stored in place','the four bytes are taken as an offset')
plant('ifd-limit','C09',D+'tiff.rs','    if num > 4000 {\n      return Err(format!("too many entries in IFD ({})", num).to_string())\n    }\n    for i in 0..num {','    if num > 255 {\n      return Err(format!("too many entries in IFD ({})", num).to_string())\n    }\n    for i in 0..num {',
  'a directory with more than 255 entries','a well-formed file is refused')
plant('escape-open','C10',D+'mod.rs','''    match panic::catch_unwind(|| {
      let mut f = match File::open(path) {
        Ok(val) => val,
        Err(e) => {return Err(e.description().to_string())},
      };
      self.decode(&mut f)
    }) {''','''    let mut f = match File::open(path) {
      Ok(val) => val,
      Err(e) => {return Err(e.description().to_string())},
    };
    let buffer = try!(Buffer::new(&mut f));
    let decoder = panic::AssertUnwindSafe(try!(self.get_decoder(&buffer)));
    match panic::catch_unwind(|| {
      decoder.image()
    }) {''','a file whose directories make the container parser panic (offsets outside the file)','the panic unwinds into the caller', demo='survive')
plant('dither-state','C11',D+'packed.rs','    let mut random = LEu32(inb, 0);','    let mut random = LEu32(inb, 0) ^ (DITHER.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) as u32);',
  'decoding the same companded 8 bit file twice','results differ between runs and threads', demo='twice',
  extra=[(D+'packed.rs','use decoders::basics::*;\n','use decoders::basics::*;\n\nstatic DITHER: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n',0)])
plant('zero-limit','C12',I+'demosaic.rs','if maxwidth == 0 || maxheight == 0 {','if maxwidth == 0 && maxheight == 0 {','exactly one limit of zero','a huge or empty result instead of the full size', demo='render')
plant('transpose-limits','C12',I+'mod.rs','  let (maxwidth, maxheight) = if transpose {','  let (maxwidth, maxheight) = if transpose && img.orientation != Orientation::Transpose {',
  'orientation 5 with unequal limits','the result exceeds the limits', demo='render')
plant('transpose-block','C13',I+'transform.rs','    for col in 0 .. buf.height {\n      let target','    for col in (0 .. (buf.height + 62) / 64 * 64).filter(|c| *c < buf.height) {\n      let target',
  'a transposing orientation and a height with a remainder of 1 modulo 64','the last column of the result is black', demo='render')
plant('green-unusable','C14',I+'level.rs','            !img.wb_coeffs[1].is_normal() ||\n','',
  'a white balance whose green coefficient is missing or zero','everything is divided by an unusable coefficient', demo='render')
plant('emerald-clip','C14',I+'level.rs','      pix[3] = (((pix[3] - mins[3]) / ranges[3]) * mul[3]).min(1.0);','      pix[3] = ((pix[3] - mins[3]) / ranges[3]) * mul[3];',
  'a four colour sensor with an overexposed fourth channel','highlights are not clipped in the fourth channel', demo='render')
plant('xtrans-scale','C15',I+'demosaic.rs','    6  => 3.0,  // x-trans','    6  => 2.0,  // x-trans',
  'an X-Trans image reduced by a factor between 2 and 3','output pixels without a sample of some colour lose that colour', demo='render')
plant('cfa-mask','C16',D+'cfa.rs','    self.pattern[(row+48) % 48][(col+48) % 48]','    self.pattern[(row+48) % 48][(col+48) & 31]',
  'a pattern 6 or 12 wide, or a column beyond 31','the wrong colour is reported', demo='cfa')
plant('pinv-four','C17',D+'image.rs','        for k in 0..4 {\n          temp[i][j] += inm[k][i] * inm[k][j];','        for k in 0..3 {\n          temp[i][j] += inm[k][i] * inm[k][j];',
  'a four colour camera','the camera matrix is inverted wrongly', demo='matrix')
plant('scaled-cfa','C18',I+'demosaic.rs','  let crop_cfa = img.cropped_cfa();','  let crop_cfa = img.cfa.clone();',
  'an odd crop on the left or top and a large reduction','colours are exchanged in small renderings', demo='render', nth=1)
plant('wb-small','C19',I+'level.rs','  } else if !img.wb_coeffs[0].is_normal() ||','  } else if !img.wb_coeffs[0].is_normal() || img.wb_coeffs[1] < 0.05 ||',
  'white balance coefficients that are all small (normalised to a small scale)','the same balance in another scale renders differently', demo='render')
plant('no-truncate','C20','src/bin/rawloader.rs','  let uf = match File::create(outfile) {','  let uf = match std::fs::OpenOptions::new().write(true).create(true).open(outfile) {',
  'an existing output file longer than the new one','the end of the old file stays in the output', demo='cli')
plant('naked-even','C21',D+'mod.rs','self.naked.get(&buf.size)','self.naked.get(&(buf.size & !1))',
  'a file without signature that is one byte longer than a known headerless format','it is decoded as that camera', demo='refuse')
plant('srw-compression','C21',D+'srw.rs','      32772 => {','      32771 | 32772 => {',
  'a Samsung file with compression 32771','it is decoded as something else instead of refused', demo='refuse')
plant('lab-white','C22',I+'colorspaces.rs','  let xw = 0.950456; let yw = 1.000; let zw = 1.088754;','  let xw = 0.950456; let yw = 1.000; let zw = 1.0990;',
  'any grey subject','greys get a tint', demo='render')
