PROPERTY = "G03"
NEEDS = "reading one column past the end of a row that is not the last row"
BREAKS = "the column bound of reads is off by one, so the first element of the next row is returned"
EDITS = [("gmatlib/src/trait_impls.rs", """    fn index(&self, index: (usize, usize)) -> &T 
    {
        if index.0 >= self.rows || index.1 >= self.cols 
""", """    fn index(&self, index: (usize, usize)) -> &T 
    {
        if index.0 >= self.rows || index.1 > self.cols 
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let a: Matrix<i32> = Matrix::from_vec(3, vec![1, 2, 3, 4, 5, 6]).unwrap();
    let r = std::panic::catch_unwind(|| a[(0, 3)]);
    assert!(r.is_err(), "element (0, 3) of a 2x3 matrix is {r:?}");
}
'''
