PROPERTY = "G03"
NEEDS = "a sum of matrices of different shapes with the same number of elements"
BREAKS = "the sum of such matrices is computed instead of refused"
EDITS = [("gmatlib/src/trait_impls.rs", """        if self.rows != rhs.rows || 
           self.cols != rhs.cols
        {
            panic!("cannot add elements of matrices with different sizes")
        }

        let mut""", """        if self.vals.len() != rhs.vals.len()
        {
            panic!("cannot add elements of matrices with different sizes")
        }

        let mut""")]
CRATES = ["gmatlib"]
MAIN = r'''
fn main() {
    let a: gmatlib::Matrix<f64> = gmatlib::Matrix::new(2, 3);
    let b: gmatlib::Matrix<f64> = gmatlib::Matrix::new(3, 2);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| &a + &b).is_err());
}
'''
