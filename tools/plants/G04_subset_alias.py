PROPERTY = "G04"
NEEDS = "taking the sub-matrix that is the whole matrix over the C interface, then changing or freeing one of the two handles"
BREAKS = "the sub-matrix that covers the whole matrix is returned as the same handle, so two owners share one matrix"
EDITS = [("gmatlib/src/ffi.rs", """        let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
        Box::into_raw(b) as *mut c_void
""", """        let (r1, c1, r2, c2) = (r1 as usize, c1 as usize, r2 as usize, c2 as usize);
        if (r1, c1) == (0, 0) && (r2 + 1, c2 + 1) == (a.get_rows(), a.get_cols())
        {
            return ptr; // nothing to cut off
        }

        let b = Box::new(a.subset(r1, c1, r2, c2));
        Box::into_raw(b) as *mut c_void
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::ffi::*;
fn main() {
    let a = new_double_matrix(2, 3);
    index_mut_double_matrix(a, 0, 0, 1.0);
    let b = subset(a, 0, 0, 1, 2);
    index_mut_double_matrix(b, 0, 0, 7.0);
    assert_eq!(index_double_matrix(a, 0, 0), 1.0);
    assert_eq!(index_double_matrix(b, 0, 0), 7.0);
}
'''
