PROPERTY = "E10"
NEEDS = "an equation solved after another one with the same unknown and context"
BREAKS = "a solved unknown stays in the context of the caller"
EDITS = [("geqslib/src/ffi.rs", """        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };

        let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess""", """        let ctx = unsafe { &mut *(context as *mut ContextHashMap) };

        let (var, val) = match solve_equation_with_context(&equation_str, ctx, guess""")]
CRATES = ["geqslib"]
MAIN = r'''
use geqslib::ffi::*;
use std::ffi::*;
fn main() {
    unsafe {
        let c = new_default_context_hash_map();
        let inf = f64::INFINITY;
        for (text, want) in [("x + 1 = 3", "x=2"), ("x - 1 = 3", "x=4")] {
            let e = CString::new(text).unwrap();
            let r = solve_equation(e.as_ptr(), c, 1.0, -inf, inf, 1e-6, 50);
            assert!(!r.is_null(), "{text} was not solved");
            let t = CStr::from_ptr(r).to_str().unwrap();
            assert!(t.starts_with(&want[..2]), "{t}");
        }
    }
}
'''
