//! The system interface between the library and the kernel. The harness
//! defines these libc functions itself, so that every file-system call (and
//! the source of hash seeds) of the code under test passes through here and a
//! controller decides what happens: let it pass, fail it, or cut it short.
#![allow(unsafe_op_in_unsafe_fn)]
use libc::*;
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Open,
    Read,
    Stat,
    /// metadata of an open file
    FdStat,
    Seek,
    OpenDir,
    ReadDir,
    RealPath,
    ReadLink,
    Access,
    Cwd,
    /// a call that changes the file system or runs something
    Write,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    /// path argument, or the path behind the descriptor
    pub path: String,
    /// bytes asked for
    pub len: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Pass,
    Fail(i32),
    /// deliver at most so many bytes
    Short(usize),
    /// report this size for the file
    Size(u64),
}
/// what a completed call reported
pub enum Ev<'a> {
    Call(&'a Call),
    /// a file or directory was opened; its resolved path
    Opened(&'a str, bool),
}
type Ctl<'a> = dyn FnMut(Ev) -> Act + 'a;

thread_local! {
    static CTL: RefCell<Option<Box<Ctl<'static>>>> = const { RefCell::new(None) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static SEED: Cell<u64> = const { Cell::new(0) };
    static SEEDED: Cell<bool> = const { Cell::new(false) };
    /// order in which directory entries are delivered: the index of a
    /// permutation of the sorted names
    static ORDER: Cell<Option<u64>> = const { Cell::new(None) };
    static DIRS: RefCell<Vec<Listing>> = const { RefCell::new(vec![]) };
}
/// an open directory, its entries and how many of them were delivered
type Listing = (usize, Vec<Box<dirent64>>, usize);

/// Run `f`; every directory it lists delivers its entries in the order given
/// by `perm` (number of a permutation in the factorial system).
pub fn with_order<T>(perm: u64, f: impl FnOnce() -> T) -> T {
    ORDER.with(|o| o.set(Some(perm)));
    let r = f();
    ORDER.with(|o| o.set(None));
    DIRS.with(|d| d.borrow_mut().clear());
    r
}

/// Run `f` with every file-system call of this thread under the controller.
pub fn with<T>(ctl: Box<Ctl<'_>>, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
            CTL.with(|c| c.borrow_mut().take());
        }
    }
    let ctl: Box<Ctl<'static>> = unsafe { std::mem::transmute(ctl) };
    CTL.with(|c| *c.borrow_mut() = Some(ctl));
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}
/// All random bytes this thread asks for are a function of `seed`.
pub fn set_seed(seed: u64) {
    SEED.with(|s| s.set(seed));
    SEEDED.with(|s| s.set(true));
}

fn ask(ev: Ev) -> Act {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return Act::Pass;
    }
    ON.with(|o| o.set(false));
    let mut ctl = CTL.with(|c| c.borrow_mut().take());
    let a = match &mut ctl {
        Some(c) => c(ev),
        None => Act::Pass,
    };
    CTL.with(|c| *c.borrow_mut() = ctl);
    ON.with(|o| o.set(true));
    a
}
fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
unsafe fn cs(p: *const c_char) -> String {
    if p.is_null() { String::new() } else { unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned() }
}
fn fd_path(fd: c_int) -> String {
    let p = format!("/proc/self/fd/{fd}\0");
    let mut b = [0u8; 4096];
    let n = unsafe { syscall(SYS_readlink, p.as_ptr(), b.as_mut_ptr(), b.len()) };
    if n < 0 { format!("fd {fd}") } else { String::from_utf8_lossy(&b[..n as usize]).into_owned() }
}
unsafe fn fail(e: i32) {
    unsafe { *__errno_location() = e };
}

macro_rules! real {
    ($name:expr, $ty:ty) => {{
        static P: OnceLock<usize> = OnceLock::new();
        let p = *P.get_or_init(|| unsafe { dlsym(RTLD_NEXT, std::ffi::CString::new($name).unwrap().as_ptr()) as usize });
        assert!(p != 0);
        unsafe { std::mem::transmute::<usize, $ty>(p) }
    }};
}
/// ask, and return from the interposed function if the call is to fail
macro_rules! gate {
    ($op:expr, $path:expr, $len:expr, $err:expr) => {
        if on() {
            match ask(Ev::Call(&Call { op: $op, path: $path, len: $len })) {
                Act::Pass => None,
                Act::Short(n) => Some(n),
                Act::Size(n) => Some(n as usize),
                Act::Fail(e) => {
                    unsafe { fail(e) };
                    return $err;
                }
            }
        } else {
            None
        }
    };
}
fn wr(flags: c_int) -> bool {
    flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0
}
fn opened(fd: c_int, dir: bool) {
    if fd >= 0 && on() {
        let e = unsafe { *__errno_location() };
        let p = fd_path(fd);
        ask(Ev::Opened(&p, dir));
        unsafe { fail(e) };
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    crate::sched::point();
    let _ = gate!(if wr(flags) { Op::Write } else { Op::Open }, unsafe { cs(path) }, 0, -1);
    let fd = real!("open64", unsafe extern "C" fn(*const c_char, c_int, mode_t) -> c_int)(path, flags, mode);
    opened(fd, false);
    fd
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let _ = gate!(if wr(flags) { Op::Write } else { Op::Open }, unsafe { cs(path) }, 0, -1);
    let fd = real!("openat64", unsafe extern "C" fn(c_int, *const c_char, c_int, mode_t) -> c_int)(dir, path, flags, mode);
    opened(fd, false);
    fd
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    crate::sched::point();
    let mut k = n;
    if on() {
        if let Some(s) = gate!(Op::Read, fd_path(fd), n, -1) {
            k = n.min(s);
        }
    }
    real!("read", unsafe extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, k)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let mut k = n;
    if on() {
        if let Some(s) = gate!(Op::Read, fd_path(fd), n, -1) {
            k = n.min(s);
        }
    }
    real!("pread64", unsafe extern "C" fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t)(fd, buf, k, off)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if on() {
        if let Some(s) = gate!(Op::Read, fd_path(fd), n as usize, -1) {
            if n > 0 {
                let one = unsafe { *v };
                return real!("read", unsafe extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, one.iov_base, one.iov_len.min(s));
            }
        }
    }
    real!("readv", unsafe extern "C" fn(c_int, *const iovec, c_int) -> ssize_t)(fd, v, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut statx) -> c_int {
    crate::sched::point();
    let mut size = None;
    if on() {
        let p = unsafe { cs(path) };
        size = if p.is_empty() { gate!(Op::FdStat, fd_path(dir), 0, -1) } else { gate!(Op::Stat, p, 0, -1) };
    }
    let r = real!("statx", unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut statx) -> c_int)(dir, path, flags, mask, buf);
    if let (0, Some(n)) = (r, size) {
        unsafe { (*buf).stx_size = n as u64 };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut stat64) -> c_int {
    let size = gate!(Op::Stat, unsafe { cs(path) }, 0, -1);
    let r = real!("stat64", unsafe extern "C" fn(*const c_char, *mut stat64) -> c_int)(path, buf);
    if let (0, Some(n)) = (r, size) {
        unsafe { (*buf).st_size = n as i64 };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut stat64) -> c_int {
    let size = gate!(Op::Stat, unsafe { cs(path) }, 0, -1);
    let r = real!("lstat64", unsafe extern "C" fn(*const c_char, *mut stat64) -> c_int)(path, buf);
    if let (0, Some(n)) = (r, size) {
        unsafe { (*buf).st_size = n as i64 };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut stat64) -> c_int {
    let size = gate!(Op::FdStat, fd_path(fd), 0, -1);
    let r = real!("fstat64", unsafe extern "C" fn(c_int, *mut stat64) -> c_int)(fd, buf);
    if let (0, Some(n)) = (r, size) {
        unsafe { (*buf).st_size = n as i64 };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    let _ = gate!(Op::Seek, fd_path(fd), 0, -1);
    real!("lseek64", unsafe extern "C" fn(c_int, off64_t, c_int) -> off64_t)(fd, off, w)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    let _ = gate!(Op::OpenDir, unsafe { cs(path) }, 0, std::ptr::null_mut());
    let d = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(path);
    if !d.is_null() && on() {
        opened(unsafe { dirfd(d) }, true);
    }
    d
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    crate::sched::point();
    let _ = gate!(Op::ReadDir, fd_path(unsafe { dirfd(d) }), 0, std::ptr::null_mut());
    let rd = real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    let Some(perm) = ORDER.try_with(|o| o.get()).unwrap_or(None) else { return rd(d) };
    DIRS.with(|l| {
        let mut l = l.borrow_mut();
        let i = match l.iter().position(|x| x.0 == d as usize) {
            Some(i) => i,
            None => {
                let mut v: Vec<Box<dirent64>> = vec![];
                loop {
                    let e = rd(d);
                    if e.is_null() {
                        break;
                    }
                    // an entry is only as long as its name
                    let mut b: Box<dirent64> = Box::new(unsafe { std::mem::zeroed() });
                    unsafe {
                        b.d_ino = (*e).d_ino;
                        b.d_off = (*e).d_off;
                        b.d_reclen = (*e).d_reclen;
                        b.d_type = (*e).d_type;
                        let name = std::ptr::addr_of!((*e).d_name) as *const c_char;
                        let n = strlen(name);
                        std::ptr::copy_nonoverlapping(name, b.d_name.as_mut_ptr(), n);
                    }
                    v.push(b);
                }
                v.sort_by_key(|e| e.d_name.iter().take_while(|c| **c != 0).copied().collect::<Vec<_>>());
                let mut out = vec![];
                let mut k = perm;
                while !v.is_empty() {
                    let n = v.len() as u64;
                    out.push(v.remove((k % n) as usize));
                    k /= n;
                }
                l.push((d as usize, out, 0));
                l.len() - 1
            }
        };
        let (_, v, n) = &mut l[i];
        match v.get_mut(*n) {
            None => {
                *n = 0;
                std::ptr::null_mut()
            }
            Some(e) => {
                *n += 1;
                &mut **e as *mut dirent64
            }
        }
    })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    let _ = DIRS.try_with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            l.retain(|x| x.0 != d as usize)
        }
    });
    real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    crate::sched::point();
    let _ = gate!(Op::RealPath, unsafe { cs(path) }, 0, std::ptr::null_mut());
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let _ = gate!(Op::ReadLink, unsafe { cs(path) }, n, -1);
    real!("readlink", unsafe extern "C" fn(*const c_char, *mut c_char, size_t) -> ssize_t)(path, buf, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, m: c_int) -> c_int {
    let _ = gate!(Op::Access, unsafe { cs(path) }, 0, -1);
    real!("access", unsafe extern "C" fn(*const c_char, c_int) -> c_int)(path, m)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    let _ = gate!(Op::Cwd, String::new(), n, std::ptr::null_mut());
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}
macro_rules! write_path {
    ($($name:ident($($a:ident: $t:ty),*);)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(path: *const c_char $(, $a: $t)*) -> c_int {
            let _ = gate!(Op::Write, unsafe { cs(path) }, 0, -1);
            real!(stringify!($name), unsafe extern "C" fn(*const c_char $(, $t)*) -> c_int)(path $(, $a)*)
        }
    )*};
}
write_path! {
    unlink();
    rmdir();
    mkdir(mode: mode_t);
    rename(to: *const c_char);
    symlink(to: *const c_char);
    link(to: *const c_char);
    chmod(mode: mode_t);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd > 2 {
        let _ = gate!(Op::Write, fd_path(fd), n, -1);
    }
    real!("write", unsafe extern "C" fn(c_int, *const c_void, size_t) -> ssize_t)(fd, buf, n)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if SEEDED.try_with(|s| s.get()).unwrap_or(false) {
        let mut x = SEED.with(|s| s.get());
        for i in 0..n {
            // splitmix64
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            unsafe { *(buf as *mut u8).add(i) = (z ^ (z >> 31)) as u8 };
        }
        return n as ssize_t;
    }
    unsafe { syscall(SYS_getrandom, buf, n, flags) as ssize_t }
}
