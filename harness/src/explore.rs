//! Stateless bounded model checker: every sequence of choices of a
//! nondeterministic program is executed, depth first, on all cores.
#![allow(dead_code)]
use crate::alloc;
use std::cell::{Cell as StdCell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Bad {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Bad>;
pub fn bad<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

// ------------------------------------------------------------------ choices

pub const MAXCH: usize = 2000;

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub trace: Vec<(u32, u32, &'static str)>,
    slot: *mut u32,
}
impl<'a> Ch<'a> {
    /// Nondeterministic choice among `n` alternatives.
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n >= 1 && n < (1 << 31), "choice {label} has {n} alternatives");
        let i = self.trace.len();
        assert!(i < MAXCH, "choice sequence too long");
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replayed choice out of range at {label}");
        self.trace.push((c, n as u32, label));
        if !self.slot.is_null() {
            unsafe {
                self.slot.add(8 + i).write_volatile(c);
                self.slot.add(1).write_volatile(i as u32 + 1);
            }
        }
        c as usize
    }
    pub fn flag(&mut self, label: &'static str) -> bool {
        self.choose(label, 2) == 1
    }
    pub fn pick<'b, T>(&mut self, label: &'static str, v: &'b [T]) -> &'b T {
        &v[self.choose(label, v.len())]
    }
    /// a permutation of 0..n, every one reachable
    pub fn perm(&mut self, label: &'static str, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while rest.len() > 1 {
            let i = self.choose(label, rest.len());
            out.push(rest.remove(i));
        }
        out.extend(rest);
        out
    }
}

pub type RunFn = Box<dyn Fn(&mut Ch, &mut Cx) -> R + Sync + Send>;
pub struct Space {
    pub name: String,
    pub bound: String,
    pub run: RunFn,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        f: impl Fn(&mut Ch, &mut Cx) -> R + Sync + Send + 'static,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), run: Box::new(f) }
    }
}

/// Per-execution context
pub struct Cx {
    pub calls: u64,
    pub ok: u64,
    pub err: u64,
    pub state: u64,
    pub outcome: u64,
    pub last_bytes: Vec<u8>,
    pub keep_bytes: bool,
    pub verbose: bool,
    pub scratch: Option<PathBuf>,
    pub thread: usize,
    pub extra: BTreeMap<&'static str, u64>,
    pub mem_slack: usize,
}
pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (b.len() as u64).wrapping_mul(0xff51afd7ed558ccd)
}
impl Cx {
    pub fn new(thread: usize) -> Cx {
        Cx {
            calls: 0,
            ok: 0,
            err: 0,
            state: 0,
            outcome: 0,
            last_bytes: vec![],
            keep_bytes: false,
            verbose: false,
            scratch: None,
            thread,
            extra: BTreeMap::new(),
            mem_slack: 32 << 20,
        }
    }
    /// mix `b` into the identity of the model state reached by this execution
    pub fn mix(&mut self, b: &[u8]) {
        self.state = fnv(self.state.wrapping_add(0x51), b);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_default() += n;
    }
    pub fn scratch_dir(&mut self) -> PathBuf {
        if self.scratch.is_none() {
            let base = if std::path::Path::new("/dev/shm").is_dir()
                && std::fs::create_dir_all("/dev/shm/mc-onenote").is_ok()
            {
                PathBuf::from("/dev/shm/mc-onenote")
            } else {
                PathBuf::from("/tmp/mc-onenote")
            };
            let d = base.join(format!("{}-{}", std::process::id(), self.thread));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("scratch");
            self.scratch = Some(d);
        }
        self.scratch.clone().unwrap()
    }
}
impl Drop for Cx {
    fn drop(&mut self) {
        if let Some(d) = &self.scratch {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

// ------------------------------------------------------------------ panics

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: StdCell<bool> = const { StdCell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if GUARDED.with(|g| g.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            eprintln!("harness panic: {msg} at {loc}");
            std::process::exit(70);
        }
    }));
}

/// Run library code: a panic becomes a violation.
pub fn guarded<T>(cx: &mut Cx, len: usize, f: impl FnOnce() -> T) -> Result<T, Bad> {
    cx.calls += 1;
    let base = alloc::begin();
    GUARDED.with(|g| g.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    let peak = alloc::peak().saturating_sub(base);
    alloc::end();
    match r {
        Ok(v) => {
            let lim = cx.mem_slack + 600 * len;
            if peak > lim {
                return bad("memory", format!("peak allocation {peak} bytes for an input of {len} bytes"));
            }
            Ok(v)
        }
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            bad(format!("panic: {}", strip_line(&m)), format!("library panicked: {m}"))
        }
    }
}
fn strip_line(m: &str) -> String {
    // drop line numbers and concrete indices so that keys are stable
    let mut out = String::new();
    let mut num = false;
    for c in m.chars() {
        if c.is_ascii_digit() {
            if !num {
                out.push('#');
            }
            num = true;
        } else {
            num = false;
            out.push(c);
        }
    }
    out
}

// ------------------------------------------------------------------ slots

pub struct Slots {
    base: *mut u32,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const SLOT: usize = 8 + MAXCH;
impl Slots {
    pub fn open(path: &std::path::Path, n: usize) -> Slots {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((n * SLOT * 4) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * SLOT * 4,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p as *mut u32, n }
    }
    pub fn slot(&self, i: usize) -> *mut u32 {
        unsafe { self.base.add(i * SLOT) }
    }
    /// (active, space, choices)
    pub fn read(&self, i: usize) -> (bool, usize, Vec<u32>) {
        let s = self.slot(i);
        unsafe {
            let act = s.read_volatile() != 0;
            let len = s.add(1).read_volatile() as usize;
            let space = s.add(2).read_volatile() as usize;
            let v = (0..len.min(MAXCH)).map(|k| s.add(8 + k).read_volatile()).collect();
            (act, space, v)
        }
    }
}

// ------------------------------------------------------------------ search

#[derive(Default, Clone, Debug)]
pub struct SpaceStats {
    pub name: String,
    pub bound: String,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub calls: u64,
    pub ok: u64,
    pub err: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub extra: BTreeMap<&'static str, u64>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub space: usize,
    pub space_name: String,
    pub choices: Vec<u32>,
    pub labels: String,
    pub bad: Bad,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>, // pending prefixes, idle workers
    cv: Condvar,
    stop: AtomicBool,
    hungry: AtomicUsize,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    found: Mutex<Vec<Found>>,
    stats: Mutex<SpaceStats>,
    execs: AtomicU64,
}

pub fn fmt_trace(t: &[(u32, u32, &'static str)]) -> String {
    t.iter().map(|(c, n, l)| format!("{l}={c}/{n}")).collect::<Vec<_>>().join(" ")
}

pub const THREAD_STACK: usize = 2 << 20;

pub fn explore(
    idx: usize,
    sp: &Space,
    threads: usize,
    deadline: Instant,
    slots: &Slots,
    known: &(dyn Fn(&Bad) -> bool + Sync),
) -> (SpaceStats, Vec<Found>) {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        hungry: AtomicUsize::new(0),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        outcomes: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        found: Mutex::new(vec![]),
        stats: Mutex::new(SpaceStats { name: sp.name.clone(), bound: sp.bound.clone(), ..Default::default() }),
        execs: AtomicU64::new(0),
    };
    std::thread::scope(|s| {
        for t in 0..threads {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(THREAD_STACK)
                .spawn_scoped(s, move || worker(t, threads, idx, sp, sh, deadline, slots.slot(t), known))
                .unwrap();
        }
    });
    let mut st = sh.stats.into_inner().unwrap();
    st.states = sh.states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    st.outcomes = sh.outcomes.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    st.complete = !sh.stop.load(SeqCst);
    st.wall = t0.elapsed().as_secs_f64();
    (st, sh.found.into_inner().unwrap())
}

fn worker(
    t: usize,
    threads: usize,
    idx: usize,
    sp: &Space,
    sh: &Shared,
    deadline: Instant,
    slot: *mut u32,
    known: &(dyn Fn(&Bad) -> bool + Sync),
) {
    let mut local: Vec<Vec<u32>> = vec![];
    let mut cx = Cx::new(t);
    let mut st = SpaceStats::default();
    loop {
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                let mut q = sh.queue.lock().unwrap();
                q.1 += 1;
                sh.hungry.fetch_add(1, SeqCst);
                let r = loop {
                    if sh.stop.load(SeqCst) {
                        break None;
                    }
                    if let Some(p) = q.0.pop() {
                        break Some(p);
                    }
                    if q.1 == threads {
                        sh.cv.notify_all();
                        break None;
                    }
                    let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                    q = g;
                };
                sh.hungry.fetch_sub(1, SeqCst);
                match r {
                    Some(p) => {
                        q.1 -= 1;
                        p
                    }
                    None => {
                        break;
                    }
                }
            }
        };
        if sh.stop.load(Relaxed) {
            continue;
        }
        let e = sh.execs.fetch_add(1, Relaxed);
        if e & 63 == 0 && Instant::now() > deadline {
            sh.stop.store(true, SeqCst);
            continue;
        }
        // ---- one execution
        let (res, trace) = run_one(idx, sp, &prefix, slot, &mut cx);
        st.executions += 1;
        st.transitions += (trace.len() - prefix.len().saturating_sub(1)) as u64;
        st.max_depth = st.max_depth.max(trace.len());
        sh.states[(cx.state & 63) as usize].lock().unwrap().insert(cx.state);
        sh.outcomes[(cx.outcome & 63) as usize].lock().unwrap().insert(cx.outcome);
        if st.samples.len() < 2 || (st.samples.len() < 6 && st.executions.is_power_of_two()) {
            st.samples.push(fmt_trace(&trace));
        }
        for i in prefix.len()..trace.len() {
            for c in (1..trace[i].1).rev() {
                let mut p: Vec<u32> = trace[..i].iter().map(|x| x.0).collect();
                p.push(c);
                local.push(p);
            }
        }
        if let Err(b) = res {
            let mut f = sh.found.lock().unwrap();
            let k = known(&b);
            if !f.iter().any(|x| x.bad.key == b.key) {
                f.push(Found {
                    space: idx,
                    space_name: sp.name.clone(),
                    choices: trace.iter().map(|x| x.0).collect(),
                    labels: fmt_trace(&trace),
                    bad: b,
                });
            }
            if !k && f.iter().filter(|x| !known(&x.bad)).count() >= 4 {
                sh.stop.store(true, SeqCst);
            }
        }
        // ---- share
        if local.len() > 1 && sh.hungry.load(Relaxed) > 0 {
            let n = local.len() / 2;
            let give: Vec<_> = local.drain(..n.max(1)).collect();
            let mut q = sh.queue.lock().unwrap();
            q.0.extend(give);
            sh.cv.notify_all();
        }
    }
    let mut g = sh.stats.lock().unwrap();
    g.executions += st.executions;
    g.transitions += st.transitions;
    g.max_depth = g.max_depth.max(st.max_depth);
    g.calls += cx.calls;
    g.ok += cx.ok;
    g.err += cx.err;
    for s in st.samples {
        if g.samples.len() < 6 {
            g.samples.push(s);
        }
    }
    for (k, v) in &cx.extra {
        *g.extra.entry(k).or_default() += v;
    }
}

pub fn run_one(
    idx: usize,
    sp: &Space,
    prefix: &[u32],
    slot: *mut u32,
    cx: &mut Cx,
) -> (R, Vec<(u32, u32, &'static str)>) {
    let mut ch = Ch { prefix, trace: Vec::with_capacity(32), slot };
    cx.state = fnv(idx as u64 + 1, sp.name.as_bytes());
    cx.outcome = cx.state;
    if !slot.is_null() {
        unsafe {
            slot.add(1).write_volatile(0);
            slot.add(2).write_volatile(idx as u32);
            let seq = slot.add(3).read_volatile();
            slot.add(3).write_volatile(seq.wrapping_add(1));
            slot.write_volatile(1);
        }
    }
    let r = (sp.run)(&mut ch, cx);
    if !slot.is_null() {
        unsafe { slot.write_volatile(0) };
    }
    (r, ch.trace)
}

/// A worker thread making no progress on one execution for `limit` seconds
/// stops the process with status 77 (the supervisor then identifies the trace).
pub fn watchdog(slots: &'static Slots, limit: f64) {
    std::thread::spawn(move || {
        let mut last: Vec<(u32, Instant)> = vec![(0, Instant::now()); slots.n];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..slots.n {
                let s = slots.slot(i);
                let (act, seq) = unsafe { (s.read_volatile(), s.add(3).read_volatile()) };
                if act == 0 || seq != last[i].0 {
                    last[i] = (seq, Instant::now());
                } else if last[i].1.elapsed().as_secs_f64() > limit {
                    eprintln!("watchdog: thread {i} has made no progress for {limit} s");
                    unsafe { libc::_exit(77) };
                }
            }
        }
    });
}
