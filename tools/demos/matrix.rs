// Camera response to a colour, balanced, and converted back, gives the colour.
use rawloader::{RawImage, CFA};
fn main() {
  let ms: [[[f64; 3]; 4]; 4] = [
    [[6722., -635., -963.], [-4287., 12460., 2028.], [-908., 2162., 5668.], [0., 0., 0.]],
    [[6722., -635., -963.], [-4287., 12460., 2028.], [908., -2162., -5668.], [0., 0., 0.]],
    [[4920., 616., -593.], [-6493., 13964., 2784.], [-1774., 3178., 7005.], [0., 0., 0.]],
    [[3155., -1180., 7.], [-6040., 11780., 4460.], [-1246., 3420., 7440.], [-4780., 9770., 5190.]],
  ];
  let white = [0.950456, 1.0, 1.088754];
  for m in &ms {
    let four = m[3].iter().any(|x| *x != 0.0);
    let mut f = [[0f32; 3]; 4];
    for i in 0..4 { for j in 0..3 { f[i][j] = m[i][j] as f32 } }
    let img = RawImage { make: "".into(), model: "".into(), clean_make: "".into(), clean_model: "".into(), width: 1, height: 1, cpp: 1,
      wb_coeffs: [f32::NAN; 4], whitelevels: [1; 4], blacklevels: [0; 4], xyz_to_cam: f, cfa: CFA::new(if four { "RGEB" } else { "RGGB" }), crops: [0; 4],
      orientation: rawloader::decoders::Orientation::Normal, data: vec![0] };
    let inv = img.cam_to_xyz();
    let nw = img.neutralwb();
    let n = if four { 4 } else { 3 };
    let resp = |v: &[f64; 3]| -> Vec<f64> { (0..n).map(|i| (0..3).map(|j| m[i][j] * v[j]).sum::<f64>()).collect() };
    let rw = resp(&white);
    for i in 0..n { if ((nw[i] as f64) - rw[1] / rw[i]).abs() > 1e-2 { println!("neutral balance {:?}", nw); std::process::exit(1) } }
    for v in &[[0.3, 0.5, 0.2], [0.9, 0.8, 0.1], [0.1, 0.4, 0.9]] {
      let r = resp(v);
      for k in 0..3 {
        let got: f64 = (0..n).map(|i| inv[k][i] as f64 * r[i] / rw[i]).sum();
        if (got - v[k]).abs() > 2e-3 { println!("{:?} came back with {} at {}", v, got, k); std::process::exit(1) }
      }
    }
  }
}
