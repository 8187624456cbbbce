//! Control over `std`'s hash seeds: `HashMap`s created in a thread started by
//! [`with_hash_seed`] iterate in an order that is a function of `seed` only.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(0x5eed);

thread_local! {
    static LOCAL: Cell<u64> = const { Cell::new(0) };
}

/// std asks the OS for hash keys once per thread; answer deterministically.
/// # Safety
/// Called by std with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let local = LOCAL.try_with(|c| c.get()).unwrap_or(0);
    let mut s = if local != 0 { local } else { SEED.load(Ordering::Relaxed) };
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    len as isize
}

/// Runs `f` in a fresh thread whose hash maps are seeded with `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                LOCAL.with(|c| c.set(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1));
                crate::catch(f)
            })
            .expect("thread");
        match h.join().expect("seeded thread") {
            Ok(v) => v,
            Err(m) => panic!("{m}"),
        }
    })
}
