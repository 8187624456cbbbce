PROPERTY = "G02"
NEEDS = "a 4x4 matrix whose entries in the second and fourth row are both involved in one cofactor"
BREAKS = "one cofactor of the 4x4 inverse uses the wrong entry"
EDITS = [("gmatlib/src/lib.rs", "a12*a24*a41 + a14*a21*a42 - a11*a24*a42 - a12*a21*a44 - a14*a22*a41) / det", "a12*a24*a41 + a14*a21*a42 - a11*a24*a42 - a12*a21*a44 - a14*a21*a41) / det")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let v = vec![2.0, 1.0, 0.0, 3.0, 1.0, 3.0, 1.0, 0.0, 0.0, 2.0, 4.0, 1.0, 1.0, 0.0, 2.0, 5.0];
    let a: Matrix<f64> = Matrix::from_vec(4, v).unwrap();
    let mut b = a.clone();
    b.try_inplace_invert().unwrap();
    let p = &a * &b;
    for i in 0..4 {
        for j in 0..4 {
            assert!((p[(i, j)] - (i == j) as u8 as f64).abs() < 1e-9, "product is {p:?}");
        }
    }
}
'''
