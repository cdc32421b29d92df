//! Sees every access of the library to memory that its threads share: its
//! static variables lie on pages of their own (statics.ld), which are made
//! inaccessible while threads run under the scheduler. An access faults, is a
//! scheduling point, and is then carried out alone by single-stepping it.
//! What a static variable points to is reached only through the variable.
use crate::sched;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Mutex, MutexGuard, Once};

unsafe extern "C" {
    static __libstatics_start: u8;
    static __libstatics_end: u8;
}
fn region() -> (usize, usize) {
    let (a, b) = (&raw const __libstatics_start as usize, &raw const __libstatics_end as usize);
    (a, b - a)
}
/// how many bytes of static variables the library has
pub fn bytes() -> usize {
    region().1
}
fn protect(on: bool) {
    let (a, n) = region();
    let p = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
    unsafe { libc::mprotect(a as *mut _, n, p) };
}

thread_local! {
    static STEP: Cell<bool> = const { Cell::new(false) };
}
static mut OLD: [libc::sigaction; 2] = unsafe { std::mem::zeroed() };
static SEEN: AtomicU64 = AtomicU64::new(0);
const TF: i64 = 0x100;

fn chain(i: usize, sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let old = (&raw const OLD[i]).read();
        match old.sa_sigaction {
            libc::SIG_DFL | libc::SIG_IGN => {
                libc::signal(sig, libc::SIG_DFL);
            }
            f => std::mem::transmute::<usize, extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)>(f)(sig, info, ctx),
        }
    }
}
extern "C" fn fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let (a, n) = region();
    let at = unsafe { (*info).si_addr() as usize };
    if at.wrapping_sub(a) >= n {
        return chain(0, sig, info, ctx);
    }
    SEEN.fetch_add(1, SeqCst);
    if !STEP.replace(true) {
        sched::shared_point();
    }
    protect(false);
    unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF };
}
extern "C" fn stepped(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    if !STEP.replace(false) {
        return chain(1, sig, info, ctx);
    }
    if ARMED.load(SeqCst) == 1 {
        protect(true);
    }
    unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF };
}

static ARMED: AtomicU64 = AtomicU64::new(0);
pub struct Watch(#[allow(dead_code)] Option<MutexGuard<'static, ()>>, u64);
/// Watch the shared memory until the value is dropped; one watch at a time.
pub fn watch() -> Watch {
    static ONE: Mutex<()> = Mutex::new(());
    static INIT: Once = Once::new();
    if bytes() == 0 {
        return Watch(None, 0);
    }
    INIT.call_once(|| {
        for (i, (s, f)) in [(libc::SIGSEGV, fault as *const () as usize), (libc::SIGTRAP, stepped as *const () as usize)].into_iter().enumerate() {
            unsafe {
                let mut n: libc::sigaction = std::mem::zeroed();
                n.sa_sigaction = f;
                n.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
                libc::sigaction(s, &n, &raw mut OLD[i]);
            }
        }
    });
    let g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    ARMED.store(1, SeqCst);
    protect(true);
    Watch(Some(g), SEEN.load(SeqCst))
}
impl Watch {
    /// accesses seen so far
    pub fn seen(&self) -> u64 {
        SEEN.load(SeqCst) - if self.0.is_some() { self.1 } else { SEEN.load(SeqCst) }
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        if self.0.is_some() {
            ARMED.store(0, SeqCst);
            protect(false);
        }
    }
}
