//! The camera database: /verif/data/cameras is a copy of the camera definition files of the
//! repository (data/cameras/<vendor>/*.toml) as they were when the properties were written,
//! read here independently of the code under test.
use std::collections::BTreeMap;
use std::sync::OnceLock;
use toml::Value;

#[derive(Clone, Debug, Default)]
pub struct Cam {
  pub vendor: String,
  pub make: String,
  pub model: String,
  pub mode: String,
  pub clean_make: String,
  pub clean_model: String,
  pub white: i64,
  pub black: i64,
  pub areah: (usize, usize),
  pub areav: (usize, usize),
  pub matrix: Vec<i64>,
  pub crops: [usize; 4],
  pub pattern: String,
  pub bps: usize,
  pub wb_offset: usize,
  pub filesize: usize,
  pub raw_width: usize,
  pub raw_height: usize,
  pub hints: Vec<String>,
  pub is_alias: bool,
  pub is_mode: bool,
}

impl Cam {
  pub fn hint(&self, h: &str) -> bool { self.hints.iter().any(|x| x == h) }
  /// color index in RGBE order (complementary sensors map M to 1 and Y to 3)
  pub fn color(&self, row: usize, col: usize) -> usize { color_of(&self.pattern, row, col) }
}

pub fn pat_dims(p: &str) -> (usize, usize) {
  match p.len() { 0 => (0, 0), 4 => (2, 2), 36 => (6, 6), 16 => (2, 8), 144 => (12, 12), _ => panic!("pattern {}", p) }
}
pub fn color_of(p: &str, row: usize, col: usize) -> usize {
  if p.is_empty() { return 0; }
  let (w, h) = pat_dims(p);
  match p.as_bytes()[(row % h) * w + col % w] { b'R' => 0, b'G' | b'M' => 1, b'B' => 2, _ => 3 }
}

fn ints(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_integer().unwrap()).collect() }

fn apply(cam: &mut Cam, t: &toml::value::Table) {
  let s = |k: &str| t.get(k).map(|v| v.as_str().unwrap().to_string());
  let i = |k: &str| t.get(k).map(|v| v.as_integer().unwrap());
  if let Some(v) = s("make") { cam.make = v }
  if let Some(v) = s("model") { cam.model = v }
  if let Some(v) = s("mode") { cam.mode = v }
  if let Some(v) = s("clean_make") { cam.clean_make = v }
  if let Some(v) = s("clean_model") { cam.clean_model = v }
  if let Some(v) = s("color_pattern") { cam.pattern = v }
  if let Some(v) = i("whitepoint") { cam.white = v }
  if let Some(v) = i("blackpoint") { cam.black = v }
  if let Some(v) = i("bps") { cam.bps = v as usize }
  if let Some(v) = i("wb_offset") { cam.wb_offset = v as usize }
  if let Some(v) = i("filesize") { cam.filesize = v as usize }
  if let Some(v) = i("raw_width") { cam.raw_width = v as usize }
  if let Some(v) = i("raw_height") { cam.raw_height = v as usize }
  if let Some(v) = t.get("blackareah") { let v = ints(v); cam.areah = (v[0] as usize, v[1] as usize) }
  if let Some(v) = t.get("blackareav") { let v = ints(v); cam.areav = (v[0] as usize, v[1] as usize) }
  if let Some(v) = t.get("color_matrix") {
    let v = ints(v);
    // entries given override the same positions of an inherited matrix
    for (k, x) in v.iter().enumerate() { if k < cam.matrix.len() { cam.matrix[k] = *x } else { cam.matrix.push(*x) } }
  }
  if let Some(v) = t.get("crops") { for (k, x) in ints(v).iter().enumerate() { cam.crops[k] = *x as usize } }
  if let Some(v) = t.get("hints") { cam.hints = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
}

fn same(a: &Cam, b: &Cam) -> bool {
  let f = |c: &Cam| { let mut c = c.clone(); c.is_alias = false; c.is_mode = false; format!("{:?}", c) };
  f(a) == f(b)
}

static AMBIGUOUS: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
/// whether any camera, alias or mode goes by this name, also one defined twice
pub fn known_model(m: &str) -> bool { all().iter().any(|c| c.model == m) || AMBIGUOUS.get().unwrap().iter().any(|k| k.1 == m) }
static DB: OnceLock<Vec<Cam>> = OnceLock::new();

pub fn known_mode(make: &str, model: &str, mode: &str) -> bool { find(make, model, mode).is_some() || AMBIGUOUS.get().unwrap().iter().any(|k| k.1 == model && k.2 == mode) }

/// every (make, model or alias, mode) triple, sorted by name so that indices are stable
pub fn all() -> &'static Vec<Cam> {
  DB.get_or_init(|| {
    let dir = crate::supervise::verif().join("data/cameras");
    let mut map: BTreeMap<(String, String, String), Cam> = BTreeMap::new();
    let mut ambiguous = std::collections::BTreeSet::new();
    let mut vendors: Vec<_> = std::fs::read_dir(&dir).expect("camera data").filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.is_dir()).collect();
    vendors.sort();
    for v in vendors {
      let vendor = v.file_name().unwrap().to_string_lossy().to_string();
      let mut files: Vec<_> = std::fs::read_dir(&v).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "toml")).collect();
      files.sort();
      for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let t: Value = text.parse().unwrap_or_else(|e| panic!("{}: {:?}", f.display(), e));
        let t = t.as_table().unwrap();
        let mut base = Cam { vendor: vendor.clone(), ..Cam::default() };
        apply(&mut base, t);
        let mut variants = vec![base.clone()];
        if let Some(ms) = t.get("cameras").and_then(|c| c.get("modes")) {
          for m in ms.as_array().unwrap() {
            let mut c = base.clone();
            apply(&mut c, m.as_table().unwrap());
            c.model = base.model.clone();
            c.clean_model = base.clean_model.clone();
            c.is_mode = true;
            variants.push(c);
          }
        }
        let mut names = vec![(base.model.clone(), base.clean_model.clone(), false)];
        if let Some(al) = t.get("model_aliases") {
          for a in al.as_array().unwrap() {
            names.push((a[0].as_str().unwrap().into(), a[1].as_str().unwrap().into(), true));
          }
        }
        for (m, cm, al) in names {
          for c in &variants {
            let mut c = c.clone();
            c.model = m.clone();
            c.clean_model = cm.clone();
            c.is_alias = al;
            let key = (c.make.clone(), c.model.clone(), c.mode.clone());
            // a name defined twice with different values has no single right answer: left out
            if let Some(old) = map.get(&key) { if !same(old, &c) { ambiguous.insert(key.clone()); } }
            map.insert(key, c);
          }
        }
      }
    }
    let _ = AMBIGUOUS.set(ambiguous.iter().cloned().collect());
    map.into_iter().filter(|(k, _)| !ambiguous.contains(k)).map(|(_, c)| c).collect()
  })
}

pub fn find(make: &str, model: &str, mode: &str) -> Option<&'static Cam> {
  all().iter().find(|c| c.make == make && c.model == model && c.mode == mode)
}
