# Second wave of planted changes.
from plants import plant, D, I
plant('srw-14-area','C01',D+'srw.rs','14 => decode_14le_unpacked(src, width, height),','14 => decode_12le_unpacked(src, width, height),','an uncompressed 14 bit Samsung file stored with compression 32770','the two top bits are lost',nth=1)
plant('orf-size-order','C01',D+'orf.rs','} else if size >= width*height/10*16 {','} else if size >= width*height*16/10 + 2 {','an Olympus file with control bytes whose strip is as small as it can be','decoded as another layout')
plant('kdc-offset','C01',D+'kdc.rs','if off < 0x15000 {0x15000} else {0x17000}','if off <= 0x15000 {0x15000} else {0x17000}','an EasyShare file whose computed offset is exactly 0x15000','image read from the wrong place')
plant('interlaced-unaligned','C01',D+'packed.rs','let second_field = &buf[half*width*12/8..];','let second_field = &buf[(height >> 1)*width*12/8..];','a split Coolpix file with an odd number of rows','odd rows are wrong')
plant('orf-width-limit','C01',D+'orf.rs','if width < 3500 {','if width < 3200 {','an interlaced Olympus file 3200 to 3499 wide','decoded as the other layout')
plant('skiplines','C01',D+'packed.rs','let inb = &buf[(row*width*4)..];','let inb = &buf[(row*width*4 & 0x7fffff)..];','a double width Fuji file of over 8 MB','rows repeat')
plant('dht-multi','C02',D+'ljpeg/mod.rs','    while length > 0 {','    while length > 17 + 16 {','a second table in the same segment with few codes','tables missing')
plant('dng-tile-row','C02',D+'dng.rs','let blength = cmp::min(height, (row+1)*tlength) - row*tlength;','let blength = cmp::min(height, (row+1)*tlength & !1) - row*tlength;','tiles whose length is odd','last row of a tile is missing')
plant('pred-row','C02',D+'ljpeg/decompressors.rs','pred1','pred1','x','x') if False else None
plant('pef-depth','C03',D+'pef.rs','(stream.get_u16() as usize + 12) & 0xf;','((stream.get_u16() & 3) as usize) + 12;','a table of fewer than 12 lengths','table misread')
plant('orf-shift','C03',D+'orf.rs','acarry[s][1] = (diff * 3 + acarry[s][1]) >> 5;','acarry[s][1] = (diff * 3 + acarry[s][1]) / 32;','negative carries','wrong')
plant('rw2-zero-tail','C03',D+'rw2.rs','if nonz[i & 1] != 0 || i > 11 {','if nonz[i & 1] != 0 || i > 12 {','a group whose even samples are all zero up to the last','out of step')
plant('rw2-sh4','C03',D+'rw2.rs','if pred[i & 1] < 0 || sh == 4 {','if pred[i & 1] < 0 {','shift 4 with a predictor that stays non-negative','low bits kept')
plant('crw-2672','C03',D+'crw.rs','if o[3] < 512 { o[3] += 2}','if o[3] <= 512 { o[3] += 2}','width 2672, sample of exactly 512','off by two')
plant('crw-skip','C03',D+'crw.rs','if leaf == 0xff { i+= 1; continue; }','if leaf == 0xff { i+= 1; break; }','leaf ff','')
plant('crw-f0','C03',D+'crw.rs','if len == 0 { i+= 1; continue; }','if len == 0 { continue; }','runs of sixteen zeros','positions off by one')
plant('srw3-mode','C03',D+'srw.rs','diff_bits_mode[colornum][0] = diff_bits_mode[colornum][1];','if diff_bits[i] != 0 { diff_bits_mode[colornum][0] = diff_bits_mode[colornum][1]; }','a group with no difference bits','lengths of later groups wrong')
plant('srw3-init','C03',D+'srw.rs','let init: u32 = if row < 2 {7} else {4};','let init: u32 = if row <= 2 {7} else {4};','third row','')
plant('srw1-len','C03',D+'srw.rs','[if row < 2 {7} else {4}; 4]','[if row < 2 {7} else if row == height-1 {5} else {4}; 4]','last row','')
plant('srw3-align','C03',D+'srw.rs','if (line_offset & 0x0f) != 0 {','if (line_offset & 0x07) != 0 {','rows of 8 mod 16 bytes','')
plant('arw1-height','C03',D+'arw.rs','          height += 8;\n','          height += if height % 16 == 0 {0} else {8};\n','height divisible by 16','rows missing')
plant('nef-csize','C04',D+'nef.rs','csize <= 0x4001','csize < 0x4001','curve of exactly 0x4001 points','curve ignored')
plant('nef-interp','C04',D+'nef.rs','points[i-i%step+step] as usize * (i%step)) / step) as u16;','points[i-i%step+step] as usize * (i%step) + step/2) / step) as u16;','interpolated curves','values rounded')
plant('nef-meta2','C04',D+'nef.rs','if v0 == 73 || v1 == 88 {','if v0 == 73 && v1 == 88 {','version 73 with another v1','')
plant('nef-lossless','C03',D+'nef.rs','if v0 == 70 { // lossless','if v0 == 70 && bps == 14 { // lossless','12 bit lossless','dithered')
plant('snef-clamp','C04',D+'nef.rs','o[5] = clampbits((inv_wb_b * b as i32 + (1<<9)) >> 10, 15) as u16;','o[5] = ((inv_wb_b * b as i32 + (1<<9)) >> 10) as u16;','bright blue','not clamped')
plant('arw2-imax','C04',D+'arw.rs','cmp::min(0x7ff,(pump.get_bits(7) << delta_shift) + min)','cmp::min(max,(pump.get_bits(7) << delta_shift) + min)','samples above the maximum of the block','clipped')
plant('arw-curve','C04',D+'arw.rs','curve[i+1] = ((centry.get_u32(i) >> 2) & 0xfff) as usize;','curve[i+1] = ((centry.get_u32(i) >> 2) & 0x7ff) as usize;','curve points above 2047','')
plant('kodak-random','C04',D+'dcr.rs','let mut pred: [i32;2] = [0;2];\n','let mut pred: [i32;2] = if col > 256 {[1;2]} else {[0;2]};\n','wide','')
plant('cr2-lin','C04',D+'cr2.rs','let mut t = [0 as u16;4096];','let mut t = [0 as u16;4095];','symbol 4095','')
plant('str-trim','C05',D+'tiff.rs','val.trim()','val.trim_right()','names with leading blanks','')
plant('mos-model','C05',D+'mos.rs','model_full.split_terminator("(").next().unwrap()','model_full.split_terminator(" (").next().unwrap()','model with serial in parentheses','')
plant('mode-clean','C05',D+'mod.rs','          mcam.update_from_toml(ct);\n          mcam.model = model.clone();','          mcam.model = model.clone();\n          mcam.update_from_toml(ct);','an alias','main name')
plant('crw-info2','C06',D+'crw.rs','if cinfo.get_u32(0) > 512 {','if cinfo.get_u32(0) >= 512 {','exactly 512','')
plant('nrw-ver','C06',D+'nrw.rs','if data[4..8] == b"0100"[..]','if data[4..7] == b"010"[..]','version 0101','')
plant('dcr-46','C06',D+'dcr.rs','dcrwb.count() >= 46','dcrwb.count() > 46','count of exactly 46','')
plant('orf-wbs','C06',D+'orf.rs','if wbs.count() == 4 {','if wbs.count() >= 2 {','two values','')
plant('srw-wb-idx','C06',D+'srw.rs','nlevels.get_u32(3) as f32 - nblacks.get_u32(3) as f32','nlevels.get_u32(3) as f32 - nblacks.get_u32(0) as f32','different blacks','')
plant('mos-neut','C06',D+'mos.rs','while pos + 70 < meta.len() {','while pos + 80 < meta.len() {','neutrals close to the end','')
plant('sony-len','C06',D+'arw.rs','for i in 0..(length/4+1) {','for i in 0..(length/4) {','length not a multiple of four','')
plant('pana-order','C06',D+'rw2.rs','if self.tiff.has_entry(Tag::PanaWBsR) && self.tiff.has_entry(Tag::PanaWBsB) {','if self.tiff.has_entry(Tag::PanaWBsR) && !self.tiff.has_entry(Tag::PanaWBs2R) {','both forms','')
plant('rational','C06',D+'tiff.rs','let b = self.endian.ru32(self.data, idx*8+4) as f32;','let b = self.endian.ru32(self.data, idx*8+4) as i32 as f32;','denominators over 2^31','')
plant('dng-active','C07',D+'dng.rs','height - crops.get_usize(2), crops.get_usize(1)])','height - crops.get_usize(2), crops.get_usize(1) & !1])','odd left crop','')
plant('dng-matrix-order','C07',D+'dng.rs','self.tiff.find_entry(Tag::ColorMatrix2)','self.tiff.find_entry(Tag::ColorMatrix2).into_iter().find(|c| c.count() == 9)','a second matrix of twelve values','first matrix')
plant('black-u32','C07',D+'image.rs','(sum[c]/count[c]) as u16','((sum[c] as u32)/(count[c] as u32)) as u16','masked areas whose sum exceeds 2^32','wrong black')
plant('iiq-black','C07',D+'iiq.rs','(data>>2) as u16','(data as u16)>>2','black entry over 16 bits','')
plant('pef-black','C07',D+'pef.rs','Some([levels.get_f32(0) as u16,levels.get_f32(1) as u16,','Some([levels.get_f32(0) as u16,levels.get_f32(2) as u16,','different greens','')
plant('orient-sub','C08',D+'mod.rs','match tiff.find_entry(Tag::Orientation) {','match tiff.find_ifds_with_tag(Tag::Orientation).last().and_then(|i| i.find_entry(Tag::Orientation)) {','a second orientation in a sub directory','')
plant('big-endian-mm','C09',D+'tiff.rs','    if data[0..4] == b"AOC\\0"[..] {','    if data[0..4] == b"AOC\\0"[..] && e.little() {','big endian Pentax','')
plant('next-ifd','C09',D+'tiff.rs','nextifd: e.ru32(buf, offset + (2+num*12) as usize) as usize,','nextifd: (e.ru32(buf, offset + (2+num*12) as usize) & 0xffffff) as usize,','directories beyond 16 MB','')
plant('typ-13','C09',D+'tiff.rs','4 | 7 | 9 | 13     => self.get_force_u32(idx),','4 | 7 | 9     => self.get_force_u32(idx),','IFD type','')
plant('typ-8','C09',D+'tiff.rs','3 | 8              => self','3                  => self','signed short','')
plant('count-shift','C09',D+'tiff.rs','if typ == 0 || typ > 13 {','if typ == 0 || typ > 12 {','type 13','')
plant('subifd-one','C09',D+'tiff.rs','          for i in 0..entry.count {\n','          for i in 0..::std::cmp::min(entry.count, 4) {\n','more than four sub IFDs','')
from plants import P as _P
NEW = _P[40:]
