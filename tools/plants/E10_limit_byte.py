PROPERTY = "E10"
NEEDS = "an iteration limit of 256 or a multiple of it"
BREAKS = "the limit of a system is cut to eight bits"
EDITS = [("geqslib/src/ffi.rs", """        let soln = match system.solve(margin, limit as usize)
""", """        let soln = match system.solve(margin, limit as u8 as usize)
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::ffi::*;
use std::ffi::CString;
fn main() {
    unsafe {
        let c = new_default_context_hash_map();
        let e = CString::new("x = 3").unwrap();
        let b = new_system_builder(e.as_ptr(), c);
        let s = build_system(b as *mut _);
        assert!(!solve_system(s as *mut _, 1e-6, 256).is_null());
    }
}
'''
