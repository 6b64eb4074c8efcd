//! Seam for hash-table randomness. std's `RandomState` obtains its per-thread
//! keys from the system call `getrandom`; this definition takes precedence over
//! the C library's, so inside a simulated run (always executed on a fresh
//! thread) the keys come from the run's seed.
use crate::ctx::Rng;
use std::cell::RefCell;

thread_local! {
    static SEEDED: RefCell<Option<Rng>> = const { RefCell::new(None) };
}
pub static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn set(seed: u64) {
    SEEDED.with(|s| *s.borrow_mut() = Some(Rng::new(seed)));
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let done = SEEDED.try_with(|s| {
        if let Ok(mut g) = s.try_borrow_mut() {
            if let Some(r) = g.as_mut() {
                let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
                for c in out.chunks_mut(8) {
                    let v = r.next().to_le_bytes();
                    c.copy_from_slice(&v[..c.len()]);
                }
                return true;
            }
        }
        false
    });
    if matches!(done, Ok(true)) {
        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return len as libc::ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t }
}
