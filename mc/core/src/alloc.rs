//! A checking allocator: every block carries a header, freed blocks are poisoned and kept
//! back for a while, so that double frees, frees of foreign pointers and reads of freed
//! memory made by the code under test become visible; live blocks are counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

pub struct Checking;

const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const HEAD: usize = 32;
const RING: usize = 1024;

static STRICT: AtomicBool = AtomicBool::new(false);
static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static mut SLOTS: [(usize, usize, usize); RING] = [(0, 0, 0); RING];

thread_local! {
    static BALANCE: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    base: usize,
    pad: u64,
}

extern "C" {
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn abort() -> !;
}

fn die(msg: &str) -> ! {
    unsafe {
        write(2, msg.as_ptr() as *const std::ffi::c_void, msg.len());
        abort()
    }
}

fn real(l: Layout) -> (Layout, usize) {
    let align = l.align().max(16);
    let off = HEAD.max(align);
    (unsafe { Layout::from_size_align_unchecked(l.size() + off, align) }, off)
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > (2 << 30) {
            return std::ptr::null_mut();
        }
        let (rl, off) = real(l);
        let base = System.alloc(rl);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        *(p.sub(HEAD) as *mut Head) = Head { magic: LIVE, size: l.size(), base: base as usize, pad: 0 };
        LIVE_COUNT.fetch_add(1, Ordering::Relaxed);
        let _ = BALANCE.try_with(|b| b.set(b.get() + 1));
        if STRICT.load(Ordering::Relaxed) {
            // never hand out memory that happens to be zero
            std::ptr::write_bytes(p, 0xa5, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut Head;
        match (*h).magic {
            LIVE => {}
            DEAD => die("memory error: block freed twice\n"),
            _ => die("memory error: freed a pointer that was not allocated\n"),
        }
        if (*h).size != l.size() {
            die("memory error: block freed with another size than it was allocated with\n");
        }
        (*h).magic = DEAD;
        LIVE_COUNT.fetch_sub(1, Ordering::Relaxed);
        let _ = BALANCE.try_with(|b| b.set(b.get() - 1));
        let (rl, _) = real(l);
        if STRICT.load(Ordering::Relaxed) && l.size() < (1 << 16) {
            std::ptr::write_bytes(p, 0xdd, l.size());
            let i = NEXT.fetch_add(1, Ordering::Relaxed) % RING;
            let slots = std::ptr::addr_of_mut!(SLOTS) as *mut (usize, usize, usize);
            let old = *slots.add(i);
            *slots.add(i) = ((*h).base, rl.size(), rl.align());
            if old.0 != 0 {
                System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
            }
        } else {
            System.dealloc((*h).base as *mut u8, rl);
        }
    }
}

/// Switches poisoning and delayed reuse on (only used by single-threaded explorations).
pub fn strict(on: bool) {
    STRICT.store(on, Ordering::Relaxed);
}

/// Blocks allocated minus blocks freed by this thread so far.
pub fn balance() -> i64 {
    BALANCE.with(|b| b.get())
}
