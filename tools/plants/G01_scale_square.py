PROPERTY = "G01"
NEEDS = "scaling a matrix with more rows than columns"
BREAKS = "only as many rows as there are columns are scaled"
EDITS = [("gmatlib/src/lib.rs", """        for i in 0..self.rows
        {
            self.inplace_row_scale(i, scalar);
        }
""", """        for i in 0..self.rows.min(self.cols.max(1))
        {
            self.inplace_row_scale(i, scalar);
        }
""")]
CRATES = ["gmatlib"]
MAIN = r'''
fn main() {
    let mut a = gmatlib::Matrix::from_vec(2, vec![1, 2, 3, 4, 5, 6]).unwrap();
    a.inplace_scale(2);
    let v: Vec<i32> = a.into();
    assert_eq!(v, vec![2, 4, 6, 8, 10, 12]);
}
'''
