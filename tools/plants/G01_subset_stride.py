PROPERTY = "G01"
NEEDS = "a sub-matrix that is not square"
BREAKS = "sub-matrices are filled with the number of rows as the row length"
EDITS = [("gmatlib/src/lib.rs", """                b[(i-r1, j-c1)] = self[(i, j)];
""", """                b.vals[(i-r1) * b.rows + (j-c1)] = self[(i, j)];
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let a: Matrix<i32> = Matrix::from_vec(3, vec![1, 2, 3, 4, 5, 6, 7, 8, 9]).unwrap();
    let r = std::panic::catch_unwind(|| Into::<Vec<i32>>::into(a.subset(0, 0, 1, 2)));
    assert_eq!(r.ok(), Some(vec![1, 2, 3, 4, 5, 6]));
    let b: Vec<i32> = a.subset(0, 0, 2, 1).into();
    assert_eq!(b, vec![1, 2, 4, 5, 7, 8]);
}
'''
