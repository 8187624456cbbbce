PROPERTY = "G03"
NEEDS = "a product whose right matrix has more rows than the left one has columns"
BREAKS = "such products are computed from the rows that fit instead of refused"
EDITS = [("gmatlib/src/lib.rs", """        if self.cols != a.rows
""", """        if self.cols > a.rows
""")]
CRATES = ["gmatlib"]
MAIN = r'''
fn main() {
    let a: gmatlib::Matrix<f64> = gmatlib::Matrix::new(2, 2);
    let b: gmatlib::Matrix<f64> = gmatlib::Matrix::new(3, 2);
    assert!(a.multiply_matrix(&b).is_err());
}
'''
