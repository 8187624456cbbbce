PROPERTY = "N07"
NEEDS = "freeing a map of declared variables that holds entries"
BREAKS = "the map of declared variables is forgotten instead of freed"
EDITS = [("nexsys/src/ffi.rs", """    let _dropper = Box::from_raw(declared as *mut HashMap<String, [f64; 3]>);
""", """    let declared = Box::from_raw(declared as *mut HashMap<String, [f64; 3]>);
    std::mem::forget(*declared);
""")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::ffi::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() { unsafe {
    let n = std::ffi::CString::new("x").unwrap();
    let round = || { let d = new_declared_hash_map(); add_declared_variable(d, n.as_ptr(), 1.0, 0.0, 2.0); free_declared_hash_map(d); };
    round();
    let before = LIVE.load(Ordering::SeqCst);
    round();
    assert_eq!(before, LIVE.load(Ordering::SeqCst));
} }
'''
