# Fourth wave of planted changes: what the earlier ones left out.
from plants import plant, D, I, P
START = len(P)
B='src/bin/rawloader.rs'
plant('dng-black-preview','C07',D+'dng.rs','if let Some(levels) = raw.find_entry(Tag::BlackLevels) {','if let Some(levels) = self.tiff.find_entry(Tag::BlackLevels) {','a DNG whose preview directory states black levels of its own','the black level of the preview is reported')
plant('dng-area','C07',D+'dng.rs','if let Some(crops) = raw.find_entry(Tag::ActiveArea) {','if let Some(crops) = self.tiff.find_entry(Tag::ActiveArea) {','a DNG whose preview directory states an active area of its own','the crops are those of the preview')
plant('orient-byte','C08',D+'mod.rs','    match orientation {\n      1 => Orientation::Normal','    match orientation & 0xff {\n      1 => Orientation::Normal','an undefined orientation of 256 or more whose low byte is 1 to 8','the undefined value is reported as an orientation')
plant('orient-dng','C08',D+'dng.rs','let orientation = Orientation::from_tiff(&self.tiff);','let orientation = Orientation::Unknown;','a DNG of a camera that is not in the database','its orientation is reported as unknown')
plant('matrix-cache','C11',I+'colorspaces.rs','  let cmatrix = img.cam_to_xyz();\n','''  use std::sync::Mutex;
  use std::collections::HashMap;
  lazy_static! {
    static ref INVERTED: Mutex<HashMap<(String,String),[[f32;4];3]>> = Mutex::new(HashMap::new());
  }
  let key = (img.clean_make.clone(), img.clean_model.clone());
  let cmatrix = *INVERTED.lock().unwrap().entry(key).or_insert_with(|| img.cam_to_xyz());
''','two images of one model with different colour matrices (DNG) processed one after the other','the second is rendered with the matrix of the first',demo='render')
plant('path-trim','C11',D+'mod.rs','File::open(path) {','File::open(path.trim()) {','a file name that begins or ends with a space','the file is not found')
plant('thin-two','C12',I+'demosaic.rs','(xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))','(xscale, maxwidth, cmp::max(if buf.height > 1 {2} else {1}, ((buf.height as f32)/xscale) as usize))','a height limit of 1 for a wide image','the result is two rows high',demo='render')
plant('mono-rot','C13',I+'mod.rs','  if img.orientation != Orientation::Normal && img.orientation != Orientation::Unknown {','  if img.orientation != Orientation::Normal && img.orientation != Orientation::Unknown && !img.is_monochrome() {','a monochrome image with an orientation','it is not rotated',demo='render')
plant('shift-mod12','C16',D+'cfa.rs','pattern[row][col] = self.color_at(row+y,col+x);','pattern[row][col] = self.color_at(row+y%12,col+x%12);','a pattern eight rows high shifted by 12 or more','the shifted pattern is out of phase',demo='cfa')
plant('cfa-even-crop','C18',D+'image.rs','    self.cfa.shift(self.crops[3], self.crops[0])','    if self.crops[3]%2 == 0 && self.crops[0]%2 == 0 { return self.cfa.clone() }\n    self.cfa.shift(self.crops[3], self.crops[0])','a pattern larger than 2x2 with even crops that are no multiple of its size','colours are exchanged',demo='render')
plant('cli-avg32','C20',B,'sum/count);','(sum as f32/count as f32) as u64);','a sum of samples beyond 24 bits and an average next to a whole number','the average is off by one',demo='cli')
plant('cli-create-first','C20',B,"  let from_time = time::precise_time_ns();\n","  if let Err(e) = File::create(outfile) { error(e.description()) }\n  let from_time = time::precise_time_ns();\n",'a file that cannot be decoded','an empty output is left, or an earlier one emptied',demo='cli')
plant('read-partial','C21',D+'mod.rs','      return Err(format!("IOError: {}", err).to_string())','      if buffer.len() == 0 { return Err(format!("IOError: {}", err).to_string()) }','a source that fails after some of its bytes were read','the part that was read is decoded',demo='refuse')
plant('dng-lin-255','C04',D+'dng.rs','for i in 0..256 {','for i in 0..255 {','an 8 bit DNG with samples of 255','they decode as 0 instead of the last entry of the table')
plant('snef-cpp','C10',D+'nef.rs','    if cpp == 3 {\n      img.cpp = 3;','    if cpp == 3 {\n      img.cpp = if bps == 12 {3} else {1};','a small NEF that states 14 bits','the number of samples does not match the dimensions',demo='survive')
NEW4 = P[START:]
