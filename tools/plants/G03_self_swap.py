PROPERTY = "G03"
NEEDS = "a row outside of the matrix that is swapped with itself"
BREAKS = "swapping a row with itself returns before its number is looked at"
EDITS = [("gmatlib/src/lib.rs", """        let mut storage: T;
        for i in 0..self.cols
        {
            storage       = self[(r1, i)];
""", """        if r1 == r2
        {
            return;
        }

        for i in 0..self.cols
        {
            let storage: T;
            storage = self[(r1, i)];
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::Matrix;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut a = Matrix::<i32>::new_identity(3);
        a.inplace_row_swap(3, 3);
    });
    assert!(r.is_err());
}
'''
