PROPERTY = "G02"
NEEDS = "an invertible matrix whose determinant is so small that its square is zero"
BREAKS = "small matrices are refused as singular because the square of the determinant is compared"
EDITS = [("gmatlib/src/lib.rs", """        let det = a11*a22 - a12*a21;

        if det == T::zero()
""", """        let det = a11*a22 - a12*a21;

        if det * det == T::zero()
""")]
CRATES = ["gmatlib"]
MAIN = r'''
fn main() {
    let mut a = gmatlib::Matrix::from_vec(2, vec![1e-100, 0.0, 0.0, 1e-100f64]).unwrap();
    assert!(a.try_inplace_invert().is_ok());
}
'''
