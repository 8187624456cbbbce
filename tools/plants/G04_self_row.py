PROPERTY = "G04"
NEEDS = "a row added to itself through the C interface"
BREAKS = "a row is not doubled when it is added to itself"
EDITS = [("gmatlib/src/ffi.rs", """        a.inplace_row_add(r1 as usize, r2 as usize);
""", """        if r1 != r2
        {
            a.inplace_row_add(r1 as usize, r2 as usize);
        }
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::ffi::*;
fn main() {
    let a = new_double_identity_matrix(3);
    assert_eq!(inplace_row_add(a, 1, 1), 1);
    assert_eq!(index_double_matrix(a, 1, 1), 2.0);
    free_double_matrix(a);
}
'''
