//! A controlled scheduler: exactly one of its threads runs; every allocation,
//! release, file-system call and lock wait (or instead every access to memory
//! the threads share, shared.rs) is a scheduling point, and a plan says at
//! which points the next thread takes over.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub struct Sched {
    /// thread that runs
    cur: AtomicU32,
    done: Vec<AtomicU32>,
    steps: Vec<AtomicU64>,
    /// only accesses to shared memory are scheduling points
    only_shared: bool,
    /// the plan's next entry
    pos: AtomicU32,
    /// points since the last switch
    since: AtomicU64,
    plan: Vec<u64>,
    pub waits: AtomicU64,
}
thread_local! {
    static S: Cell<(*const Sched, u32)> = const { Cell::new((std::ptr::null(), 0)) };
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    }
    r
}
fn wait_on(a: &AtomicU32, v: u32) {
    unsafe { raw(libc::SYS_futex, a.as_ptr() as i64, 128, v as i64, 0, 0, 0) };
}
fn wake(a: &AtomicU32) {
    unsafe { raw(libc::SYS_futex, a.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0) };
}

impl Sched {
    /// Of `n` threads, `first` runs `plan[0]` points, the next one `plan[1]`
    /// points, and so on; after the plan's end each runs to its end.
    pub fn new(n: usize, first: usize, plan: &[usize], only_shared: bool) -> Sched {
        Sched {
            cur: AtomicU32::new(first as u32),
            done: (0..n).map(|_| AtomicU32::new(0)).collect(),
            steps: (0..n).map(|_| AtomicU64::new(0)).collect(),
            only_shared,
            pos: AtomicU32::new(0),
            since: AtomicU64::new(0),
            plan: plan.iter().map(|x| *x as u64).collect(),
            waits: AtomicU64::new(0),
        }
    }
    /// the next thread that has not ended, if there is another one
    fn next(&self, me: u32) -> Option<u32> {
        let n = self.done.len() as u32;
        (1..n).map(|i| (me + i) % n).find(|i| self.done[*i as usize].load(SeqCst) == 0)
    }
    fn hand_over(&self, me: u32) {
        self.since.store(0, SeqCst);
        if let Some(t) = self.next(me) {
            self.cur.store(t, SeqCst);
            wake(&self.cur);
        }
    }
    fn wait(&self, me: u32) {
        loop {
            let c = self.cur.load(SeqCst);
            if c == me {
                return;
            }
            wait_on(&self.cur, c);
        }
    }
    fn step(&self, me: u32) {
        self.steps[me as usize].fetch_add(1, SeqCst);
        let k = self.pos.load(SeqCst) as usize;
        if k < self.plan.len() && self.next(me).is_some() && self.since.fetch_add(1, SeqCst) >= self.plan[k] {
            self.pos.store(k as u32 + 1, SeqCst);
            self.hand_over(me);
            self.wait(me);
        }
    }
    pub fn steps(&self, i: usize) -> u64 {
        self.steps[i].load(SeqCst)
    }
    /// Run `f` as thread `me`.
    pub fn run<T>(&self, me: usize, f: impl FnOnce() -> T) -> T {
        self.wait(me as u32);
        S.with(|s| s.set((self, me as u32)));
        let r = f();
        S.with(|s| s.set((std::ptr::null(), 0)));
        self.done[me].store(1, SeqCst);
        self.hand_over(me as u32);
        r
    }
    /// Only count the points of `f`.
    pub fn count<T>(f: impl FnOnce() -> T) -> (T, usize) {
        let s = Sched::new(1, 0, &[], false);
        let r = s.run(0, f);
        (r, s.steps(0) as usize)
    }
}
fn at_point(shared: bool) {
    let (p, me) = S.try_with(|s| s.get()).unwrap_or((std::ptr::null(), 0));
    if !p.is_null() {
        let s = unsafe { &*p };
        if shared || !s.only_shared {
            s.step(me)
        }
    }
}
/// A scheduling point.
pub fn point() {
    at_point(false)
}
/// A scheduling point in front of an access to shared memory.
pub fn shared_point() {
    at_point(true)
}
/// The thread would wait for a lock: the other one runs instead. Returns whether
/// the thread is controlled.
fn blocked() -> bool {
    let (p, me) = S.try_with(|s| s.get()).unwrap_or((std::ptr::null(), 0));
    if p.is_null() {
        return false;
    }
    let s = unsafe { &*p };
    if s.next(me).is_none() {
        return false;
    }
    s.waits.fetch_add(1, SeqCst);
    s.hand_over(me);
    s.wait(me);
    true
}

/// std waits for its locks through this function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    // FUTEX_WAIT and FUTEX_WAIT_BITSET
    if n == libc::SYS_futex && matches!(b & 0x7f, 0 | 9) {
        let now = unsafe { &*(a as *const AtomicU32) }.load(SeqCst);
        if now == c as u32 && blocked() {
            // as if woken for no reason; the lock is looked at again
            unsafe { *libc::__errno_location() = libc::EINTR };
            return -1;
        }
    }
    let r = unsafe { raw(n, a, b, c, d, e, f) };
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
