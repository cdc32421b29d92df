//! Counting allocator: tracks per-thread peak allocation while library code
//! runs, and refuses (null) once a thread holds more than CAP bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub const CAP: i64 = 768 << 20;
pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        if ON.with(|o| o.get()) {
            CUR.with(|c| c.set(c.get() - l.size() as i64));
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point();
        if !add(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
}
fn add(n: i64) -> bool {
    if !ON.with(|o| o.get()) {
        return true;
    }
    CUR.with(|c| {
        let v = c.get() + n;
        if v > CAP {
            return false;
        }
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
}
pub fn begin() -> usize {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    0
}
pub fn end() {
    ON.with(|o| o.set(false));
}
pub fn peak() -> usize {
    PEAK.with(|p| p.get().max(0) as usize)
}
