PROPERTY = "G04"
NEEDS = "a matrix that is freed after it was changed, and a new one of the same shape"
BREAKS = "freed matrices are kept to be used again and are not cleared"
EDITS = [("gmatlib/src/ffi.rs", """        let a = Box::new(Matrix::<c_double>::new(rows as usize, cols as usize));
        Box::into_raw(a) as *mut c_void
""", """        let shape = (rows as usize, cols as usize);
        let kept = KEPT.with(|k| k.borrow_mut().take());
        let a = match kept
        {
            Some(m) if (m.get_rows(), m.get_cols()) == shape => m,
            _ => Box::new(Matrix::<c_double>::new(shape.0, shape.1)),
        };
        Box::into_raw(a) as *mut c_void
"""), ("gmatlib/src/ffi.rs", """        let _drop_this = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
""", """        let drop_this = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
        KEPT.with(|k| *k.borrow_mut() = Some(drop_this));
"""), ("gmatlib/src/ffi.rs", """use crate::{Matrix, MatrixInversionError};
""", """use crate::{Matrix, MatrixInversionError};

thread_local! {
    /// The matrix that was freed last
    static KEPT: std::cell::RefCell<Option<Box<Matrix<c_double>>>> = std::cell::RefCell::new(None);
}
""")]
CRATES = ["gmatlib"]
MAIN = r'''
use gmatlib::ffi::*;
fn main() {
    let a = new_double_matrix(2, 3);
    index_mut_double_matrix(a, 1, 2, 5.0);
    free_double_matrix(a);
    let b = new_double_matrix(2, 3);
    assert_eq!(index_double_matrix(b, 1, 2), 0.0);
    free_double_matrix(b);
}
'''
