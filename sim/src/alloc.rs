//! Counting allocator: how much memory a thread holds, so that out-of-proportion
//! allocation is seen before the machine runs out.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
pub struct Counting;
/// A place for a debugger to stop.
#[inline(never)]
fn big() {
    std::hint::black_box(());
}
fn add(n: isize) {
    if n > 0 {
        crate::sched::point();
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > 500 << 20 && n > 0 {
            big();
        }
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
const MAX: usize = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}
pub fn start() -> isize {
    let v = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(v));
    v
}
pub fn peak(start: isize) -> usize {
    (PEAK.with(|p| p.get()) - start).max(0) as usize
}
