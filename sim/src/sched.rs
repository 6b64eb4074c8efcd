//! Seam for threads: a deterministic scheduler inside one process. Controlled
//! threads run one at a time. A thread can be interrupted at every allocation
//! and at every futex operation; waiting for a futex (which is what std's locks,
//! `Once` and `LazyLock` do when they are contended) hands the processor to
//! another thread instead of blocking. Which thread runs next is decided by the
//! plan, so a plan is one exactly repeatable execution; if no thread can run
//! although some have not finished, that is a deadlock.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

pub const MAX: usize = 8;
const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Waiting(usize),
    Done,
}
/// Only touched by the thread whose turn it is.
struct State {
    st: [St; MAX],
    n: usize,
    /// (allocation or futex operation, choice)
    plan: Vec<(u64, usize)>,
    next: usize,
    step: u64,
    switches: u64,
    waits: u64,
    choice: u64,
}
struct Shared(UnsafeCell<Option<State>>);
unsafe impl Sync for Shared {}
static STATE: Shared = Shared(UnsafeCell::new(None));
static FLAG: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static READY: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

#[allow(clippy::mut_from_ref)]
fn state() -> &'static mut State {
    unsafe { (*STATE.0.get()).as_mut().unwrap() }
}
fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(NONE)
}
unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
fn park(i: usize) {
    while FLAG[i].compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        unsafe { raw(libc::SYS_futex, [FLAG[i].as_ptr() as i64, 128, 0, 0, 0, 0]) };
    }
}
fn unpark(i: usize) {
    FLAG[i].store(1, SeqCst);
    unsafe { raw(libc::SYS_futex, [FLAG[i].as_ptr() as i64, 129, 1, 0, 0, 0]) };
}
fn ready(s: &State, but: usize) -> Vec<usize> {
    // on the stack would be nicer; the caller is not in `point` while this allocates
    (0..s.n).filter(|&i| i != but && s.st[i] == St::Ready).collect()
}
fn stuck(s: &State) -> ! {
    let t = format!("DEADLOCK after {} steps: {:?}\n", s.step, s.st[..s.n].iter().map(|x| match x { St::Waiting(_) => "waiting", St::Done => "done", St::Ready => "ready" }).collect::<Vec<_>>());
    unsafe {
        raw(libc::SYS_write, [1, t.as_ptr() as i64, t.len() as i64, 0, 0, 0]);
        raw(libc::SYS_exit_group, [7, 0, 0, 0, 0, 0]);
    }
    unreachable!()
}
/// Run without being interrupted.
fn quietly<T>(i: usize, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(NONE));
    let r = f();
    ME.with(|m| m.set(i));
    r
}
/// A place where another thread may take over.
pub fn point() {
    let i = me();
    if i == NONE {
        return;
    }
    let s = state();
    s.step += 1;
    if s.next >= s.plan.len() || s.step < s.plan[s.next].0 {
        return;
    }
    let c = s.plan[s.next].1;
    s.next += 1;
    quietly(i, || {
        let v = ready(s, i);
        if !v.is_empty() {
            s.switches += 1;
            unpark(v[c % v.len()]);
            park(i);
        }
    });
}
fn wait(i: usize, addr: usize) {
    quietly(i, || {
        let s = state();
        s.waits += 1;
        s.st[i] = St::Waiting(addr);
        s.choice += 1;
        let v = ready(s, i);
        if v.is_empty() {
            stuck(s);
        }
        let to = v[s.choice as usize % v.len()];
        unpark(to);
        park(i);
    });
}

/// Takes precedence over the C library's: std's futexes go through it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let i = me();
    if i != NONE && n == libc::SYS_futex {
        match b & 127 {
            0 | 9 => {
                point();
                let now = unsafe { (*(a as *const AtomicU32)).load(SeqCst) };
                if now == c as u32 {
                    wait(i, a as usize);
                    return 0;
                }
                unsafe { *libc::__errno_location() = libc::EAGAIN };
                return -1;
            }
            1 | 10 => {
                let s = state();
                let mut k = 0;
                for j in 0..s.n {
                    if k < c as u32 as i64 && s.st[j] == St::Waiting(a as usize) {
                        s.st[j] = St::Ready;
                        k += 1;
                    }
                }
                point();
                return k;
            }
            _ => {}
        }
    }
    let r = unsafe { raw(n, [a, b, c, d, e, f]) };
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r
}

pub struct Told {
    pub steps: u64,
    pub switches: u64,
    pub waits: u64,
}
/// Run the bodies as controlled threads, the first one first.
pub fn run<T: Send + 'static>(bodies: Vec<Box<dyn FnOnce() -> T + Send>>, plan: Vec<(u64, usize)>) -> (Vec<std::thread::Result<T>>, Told) {
    let n = bodies.len();
    unsafe { *STATE.0.get() = Some(State { st: [St::Ready; MAX], n, plan, next: 0, step: 0, switches: 0, waits: 0, choice: 0 }) };
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    READY.fetch_add(1, SeqCst);
                    park(i);
                    ME.with(|m| m.set(i));
                    let r = f();
                    ME.with(|m| m.set(NONE));
                    let s = state();
                    s.st[i] = St::Done;
                    let v = ready(s, i);
                    s.choice += 1;
                    match v.get(s.choice as usize % v.len().max(1)) {
                        Some(j) => unpark(*j),
                        None if s.st[..s.n].iter().any(|x| matches!(x, St::Waiting(_))) => stuck(s),
                        None => {}
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    while READY.load(SeqCst) < n {
        std::thread::yield_now();
    }
    unpark(0);
    let rs = hs.into_iter().map(|h| h.join()).collect();
    let s = state();
    (rs, Told { steps: s.step, switches: s.switches, waits: s.waits })
}
