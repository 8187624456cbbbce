PROPERTY = "N07"
NEEDS = "two calls that share a context, the second of which needs a value that the first one solved"
BREAKS = "the solver works on a copy of the caller's context, so solved values are forgotten between calls"
EDITS = [("nexsys/src/ffi.rs", """            &mut *(ctx as *mut ContextHashMap), 
""", """            &mut (*(ctx as *mut ContextHashMap)).clone(), 
""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::ffi::*;
use std::ffi::{CStr, CString};
fn main() { unsafe {
    let (c, d) = (new_default_context_hash_map(), new_declared_hash_map());
    let (a, b) = (CString::new("x = 3").unwrap(), CString::new("y = x + 1").unwrap());
    assert!(!basic_solve(a.as_ptr(), c, d, 1e-6, 50).is_null());
    let s = basic_solve(b.as_ptr(), c, d, 1e-6, 50);
    assert!(!s.is_null());
    assert!(CStr::from_ptr(s).to_string_lossy().contains("y: 4"));
} }
'''
