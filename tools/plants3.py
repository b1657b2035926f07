# Third wave of planted changes: totality, determinism and processing.
from plants import plant, D, I, P
START = len(P)
B='src/bin/rawloader.rs'
plant('dng-cpp','C10',D+'dng.rs','      cpp: cpp,\n','      cpp: if linear {3} else {1},\n','a DNG whose samples per pixel is neither 1 nor 3','the number of samples no longer matches', demo='survive')
plant('tiff-depth','C10',D+'tiff.rs','if depth < 10 {','if depth < 100000 {','a TIFF directory that is its own sub-directory','stack')
plant('naked-cache','C11',D+'mod.rs','    if let Some(cam) = self.naked.get(&buf.size) {\n','    use std::sync::atomic::{AtomicUsize, Ordering};\n    static SEEN: AtomicUsize = ::std::sync::atomic::ATOMIC_USIZE_INIT;\n    let n = SEEN.fetch_add(1, Ordering::SeqCst);\n    if n > 70 { return Err("busy".to_string()) }\n    if let Some(cam) = self.naked.get(&buf.size) {\n','many headerless files in one process','refused after a while', demo='twice')
plant('orient-cache','C11',D+'mod.rs','    camera.orientation = Orientation::from_tiff(tiff);\n','    use std::sync::atomic::{AtomicUsize, Ordering};\n    static LAST: AtomicUsize = ::std::sync::atomic::ATOMIC_USIZE_INIT;\n    camera.orientation = Orientation::from_tiff(tiff);\n    if camera.orientation == Orientation::Unknown { camera.orientation = Orientation::from_u16(LAST.load(Ordering::SeqCst) as u16) }\n    else if let Some(e) = tiff.find_entry(Tag::Orientation) { LAST.store(e.get_usize(0), Ordering::SeqCst) }\n','a file without orientation after one with','inherits the orientation of the file before',demo='twice')
plant('thread-rows','C11',D+'basics.rs','out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {','out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {','x','x') if False else None
plant('cbrt-threads','C11',I+'gamma.rs','  let maxvals = 1 << 16;','  let maxvals = if ::imageops::rayon::current_num_threads() == 1 {1 << 15} else {1 << 16};','one worker thread','values differ') if False else None
plant('swap-limits-7','C12',I+'mod.rs','  let (transpose, ..) = img.orientation.to_flips();','  let transpose = img.orientation == Orientation::Rotate90 || img.orientation == Orientation::Rotate270;','transposed or transverse orientation with limits','exceeds limits', demo='render')
plant('flip-one-row','C13',I+'transform.rs','    for col in 0 .. buf.width {\n','    for col in 0 .. if buf.width == 1 {0} else {buf.width} {\n','images one pixel wide','black', demo='render')
plant('flip-order','C13',I+'transform.rs','(true, false, true) => flip_vertical(&transpose(buf)),','(true, false, true) => if buf.width == buf.height {flip_horizontal(&transpose(buf))} else {flip_vertical(&transpose(buf))},','square images rotated by 270 degrees','rotated the other way',demo='render')
plant('win-right','C14',I+'demosaic.rs','for x in (cmp::max(0,(col as isize)-1) as usize) .. cmp::min(buf.width, col+2) {','for x in (cmp::max(0,(col as isize)-1) as usize) .. cmp::min(buf.width & !1, col+2) {','odd widths','last column ignored',demo='render')
plant('wb-finite','C14',I+'level.rs','  } else if !img.wb_coeffs[0].is_normal() ||','  } else if !img.wb_coeffs[0].is_finite() ||','white balance with zero red','black red',demo='render')
plant('clip-early','C14',I+'level.rs','      pix[2] = (((pix[2] - mins[2]) / ranges[2]) * mul[2]).min(1.0);','      pix[2] = ((pix[2] - mins[2]) / ranges[2]).min(1.0) * mul[2].min(1.0) + ((((pix[2] - mins[2]) / ranges[2]) * mul[2]).min(1.0) - ((pix[2] - mins[2]) / ranges[2]).min(1.0) * mul[2].min(1.0)) * if mul[2] < 1.0 {0.0} else {1.0};','blue balance under one and samples above the white level','clipped before multiplying',demo='render')
plant('clamp-zero','C14',I+'level.rs','      pix[0] = (((pix[0] - mins[0]) / ranges[0]) * mul[0]).min(1.0);','      pix[0] = (((pix[0] - mins[0]) / ranges[0]).max(0.0) * mul[0]).min(1.0);','red samples below the black level','clipped at zero',demo='render')
plant('spline-eq','C14',I+'curves.rs','else if xhere > val { high = mid - 1; }','else if xhere > val { high = mid; }','x','hang') if False else None
plant('minscale-12','C15',I+'demosaic.rs','    12 => 12.0,','    12 => 6.0,','12x12 patterns reduced by 6 to 12','missing colours',demo='render')
plant('calc-last','C15',I+'demosaic.rs','let toforward = (idxmax as f32).min(to.ceil());','let toforward = (idxmax as f32).min(to.round().max(fromback+1.0));','ratios with fractional part under one half','last samples skipped',demo='render')
plant('scale-limit','C15',I+'demosaic.rs','if scale < minscale || buf.colors != 1 {','if scale <= minscale || buf.colors != 1 {','ratio of exactly the limit','demosaiced instead',demo='render')
plant('cfa-shift-48','C16',D+'cfa.rs','pattern[row][col] = self.color_at(row+y,col+x);','pattern[row][col] = self.color_at((row+y)&0xff,(col+x)&0xff);','shifts near 256','wrong for xtrans',demo='cfa')
plant('cfa-2x8','C16',D+'cfa.rs','      16 => (2,8),','      16 => (8,2),','8x2 patterns','',demo='cfa')
plant('cfa-e','C16',D+'cfa.rs',"          'E' => 3,","          'E' => 1,",'four colours','',demo='cfa') if False else None
plant('num-zero','C17',D+'image.rs','rgb_to_cam[i][j] = if num == 0.0 {','rgb_to_cam[i][j] = if num <= 0.0 {','rows whose response to white is negative','dropped',demo='matrix')
plant('neutral-green','C17',D+'image.rs','     neutralwb[3]/neutralwb[1]]','     neutralwb[3]/neutralwb[1].max(1.0)]','four colour matrices with a weak green','wrong',demo='matrix')
plant('mono-crop','C18',I+'gofloat.rs','zip(img.data[img.width*(row+y)+x..].chunks(1)) {\n        o[0] = i[0] as f32;\n        o[1]','zip(img.data[img.width*(row+y)+(x & !1)..].chunks(1)) {\n        o[0] = i[0] as f32;\n        o[1]','monochrome with odd left crop','shifted',demo='render')
plant('cfa-crop-x','C18',D+'image.rs','self.cfa.shift(self.crops[3], self.crops[0])','self.cfa.shift(self.crops[3] % 2, self.crops[0] % 2)','x-trans crops above one','wrong colours',demo='render')
plant('srgb-round','C19',D+'image.rs','o[0] = (i*255.0).max(0.0).min(255.0) as u8;','o[0] = (i*255.0+0.001).max(0.0).min(255.0) as u8;','values just under a step','rounded up',demo='render')
plant('gamma-min','C19',I+'gamma.rs','let min: f32 = 0.018;','let min: f32 = 0.018054;','linear values between .018 and .01805','',demo='render')
plant('gamma-neg','C19',I+'gamma.rs','(pix[0].max(0.0)*(maxvals as f32))','(pix[0].abs()*(maxvals as f32))','negative linear values','bright instead of black',demo='render')
plant('cli-sum','C20',B,'    sum += val as u64;','    sum = (sum + val as u64) & 0xffffffff;','big sums','wrapped',demo='cli')
plant('cli-min','C20',B,'  let mut min: u16 = image.data[0];','  let mut min: u16 = 4095;','images brighter than 4095 everywhere','wrong min',demo='cli')
plant('cli-max','C20',B,'    if val > max { max = val; }','    else if val > max { max = val; }','first sample','') if False else None
plant('cli-utf','C20',B,'  let fileppm = format!("{}.ppm",file);','  let fileppm = format!("{}.ppm",file.trim_right_matches(".ppm"));','input named .ppm','overwrites the input',demo='cli')
plant('mode-fallback','C21',D+'mod.rs','      None => Err(format!("Couldn\'t find camera','      None if mode != "" && mode != "sRaw1" => self.check_supported_with_everything(make, model, ""),\n      None => Err(format!("Couldn\'t find camera','files with a known model but unknown mode','decoded',demo='refuse')
plant('case-model','C21',D+'mod.rs','    let mut camera = self.check_supported_with_everything(make, model, mode)?;','    let mut camera = self.check_supported_with_everything(make, model, mode).or_else(|e| if model.ends_with("II") {self.check_supported_with_everything(make, model[..model.len()-2].trim(), mode)} else {Err(e)})?;','a Mark II of a known model','decoded as mark I',demo='refuse')
plant('truncate-strip','C21',D+'dng.rs',"      c => return Err(format!(\"Don't know how to read DNGs with compression","      0x884c if cpp == 3 => try!(self.decode_uncompressed(raw, width*cpp, height)),\n      c => return Err(format!(\"Don't know how to read DNGs with compression",'lossy DNG','decoded as uncompressed',demo='refuse')
plant('lookup-range','C22',I+'colorspaces.rs','if val > 0.0 && val < 1.0 { // use','if val > 0.0 && val < 0.9 { // use','nearly white','darker',demo='render') if False else None
plant('curve-end','C22',I+'curves.rs','    if val >= end {\n','    if val >= 0.995*end {\n','nearly white','equal white',demo='render') if False else None
plant('spline-mono','C14',I+'curves.rs','c1s.push(3.0*common/((common+dxnext)/m + (common + dx)/next));','c1s.push(3.0*common/((common+dxnext)/next + (common + dx)/m));','mid tones','other slope',demo='render')
plant('mono-wb','C22',D+'image.rs','    self.cpp == 1 && !self.cfa.is_valid()','    self.cpp == 1 && !self.cfa.is_valid() && self.wb_coeffs[0].is_nan()','monochrome with white balance','colour cast',demo='render')
NEW3 = P[START:]
