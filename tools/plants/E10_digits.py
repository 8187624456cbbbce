PROPERTY = "E10"
NEEDS = "a solution much smaller than one"
BREAKS = "the solution string keeps nine digits after the point only"
EDITS = [("geqslib/src/ffi.rs", """                .map(|(var, val)| format!("{}={}", var, val))
""", """                .map(|(var, val)| format!("{}={:.9}", var, val))
""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::ffi::*;
use std::ffi::*;
fn main() {
    unsafe {
        let c = new_default_context_hash_map();
        let e = CString::new("1000000000 * x = 2.512345").unwrap();
        let b = new_system_builder(e.as_ptr(), c) as *mut c_void;
        let s = build_system(b) as *mut c_void;
        let r = solve_system(s, 1e-6, 50);
        assert!(!r.is_null());
        let t = CStr::from_ptr(r).to_str().unwrap().to_string();
        let v: f64 = t.split('=').nth(1).unwrap().parse().unwrap();
        assert!((v - 2.512345e-9).abs() < 1e-12, "{t}");
    }
}
'''
