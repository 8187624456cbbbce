PROPERTY = "N07"
NEEDS = "a solution much smaller than one"
BREAKS = "the solution string of a text that is solved with a context keeps ten digits after the point only"
EDITS = [("nexsys/src/ffi.rs", """                    .fold(String::new(), |mut acc, (x, y)| { 
                        acc.push_str(&format!("{}: {:#?}, ", x, y));
""", """                    .fold(String::new(), |mut acc, (x, y)| { 
                        acc.push_str(&format!("{}: {:.10}, ", x, y));
""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::ffi::*;
use std::ffi::*;
fn main() {
    unsafe {
        let e = CString::new("1000000000 * x = 2.512345").unwrap();
        let r = basic_solve(e.as_ptr(), new_default_context_hash_map(), new_declared_hash_map(), 1e-14, 50);
        let t = CStr::from_ptr(r).to_str().unwrap().to_string();
        let v: f64 = t.split("x: ").nth(1).unwrap().split(',').next().unwrap().parse().unwrap();
        assert!((v - 2.512345e-9).abs() < 1e-12, "{t}");
    }
}
'''
