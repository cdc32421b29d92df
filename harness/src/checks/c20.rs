//! File-system faults: every call fails, every read is cut short.
use crate::explore::*;
use crate::fsm::*;
use crate::model::*;
use crate::obs;
use crate::sys::{self, Act, Ev, Op};
use crate::tree::*;
use crate::util::*;
use onenote_parser::Parser;
use std::path::Path;
use std::sync::LazyLock;

pub struct Scene {
    pub name: &'static str,
    pub fs: Fs,
    pub path: &'static str,
    pub section: bool,
}
pub static SCENES: LazyLock<Vec<Scene>> = LazyLock::new(|| {
    let mut v = vec![];
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["A.one", "missing.one", "g", "B.one"]))
        .put("nb/A.one", sec(0))
        .put("nb/B.one", sec(1))
        .put("nb/g/q.onetoc2", toc(&["C.one", "h", "gone"]))
        .put("nb/g/C.one", sec(2))
        .put("nb/g/notes.txt", Nd::File(F::raw(b"x")))
        .put("nb/g/h/r.onetoc2", toc(&["D.one"]))
        .put("nb/g/h/D.one", sec(3));
    v.push(Scene { name: "groups", fs: f, path: "nb/t.onetoc2", section: false });
    let mut f = Fs::default();
    f.put("A.one", sec(0));
    v.push(Scene { name: "section", fs: f, path: "A.one", section: true });
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["A.one", "l.one", "OneNote_RecycleBin", "e", "sub/B.one"]))
        .put("nb/A.one", sec(0))
        .put("nb/l.one", link("real/L.one"))
        .put("nb/real/L.one", sec(4))
        .put("nb/OneNote_RecycleBin/t.onetoc2", toc(&["x"]))
        .put("nb/e/t.onetoc2", toc(&[]))
        .put("nb/sub/B.one", sec(1));
    v.push(Scene { name: "links", fs: f, path: "nb/t.onetoc2", section: false });
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["g", "A.one"]))
        .put("nb/A.one", sec(5))
        .put("nb/g/a.onetoc2", toc(&["C.one"]))
        .put("nb/g/C.one", sec(2))
        .put("nb/g/b.txt", Nd::File(F::raw(b"x")))
        .put("nb/g/c", Nd::Dir)
        .put("nb/g/d.one", sec(6));
    v.push(Scene { name: "directory", fs: f, path: "nb/t.onetoc2", section: false });
    // refused notebooks stay refused whatever fails
    let mut f = Fs::default();
    f.put("out/S.one", sec(7)).put("nb/t.onetoc2", toc(&["A.one", "esc.one"])).put("nb/A.one", sec(0)).put("nb/esc.one", link("../out/S.one"));
    v.push(Scene { name: "escaping link", fs: f, path: "nb/t.onetoc2", section: false });
    let mut f = Fs::default();
    f.put("out/S.one", sec(7))
        .put("out/plain", Nd::File(F::names(&["S.one"])))
        .put("nb/t.onetoc2", toc(&["g"]))
        .put("nb/g/S.one", sec(1))
        .put("nb/g/q.onetoc2", link("../../out/plain"));
    v.push(Scene { name: "escaping group", fs: f, path: "nb/t.onetoc2", section: false });
    // larger than any buffer on the way
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["L.one", "A.one"])).put("nb/A.one", sec(0)).put("nb/L.one", Nd::File(large()));
    v.push(Scene { name: "large", fs: f, path: "nb/t.onetoc2", section: false });
    v
});
fn large() -> F {
    let mut b = B::new();
    let d: Vec<u8> = (0..70_000u32).map(|i| (i * 31 >> 3) as u8).collect();
    let f = b.file("f.bin", d);
    F::sec(section1(b, &[f], None))
}
/// the sizes a read of `len` bytes may be cut to
fn cut(ch: &mut Ch, c: &sys::Call) -> Option<usize> {
    let size = std::fs::metadata(&c.path).map(|m| m.len() as usize).unwrap_or(0);
    let len = c.len.min(size + 2);
    if len <= 2500 {
        return match ch.choose("bytes", len.max(1)) {
            0 => None,
            i => Some(i),
        };
    }
    let mut v: Vec<usize> = (1..80).collect();
    for p in [256usize, 512, 1024, 4096, 8192, 16384, 32768, 65536] {
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([len - 2, len - 1]);
    v.retain(|x| *x < len);
    match ch.choose("bytes", v.len() + 1) {
        0 => None,
        i => Some(v[i - 1]),
    }
}

/// whether the caller has to learn about a failure of this call
fn essential(op: Op) -> bool {
    // the metadata of an open file and its position also serve as hints
    matches!(op, Op::Open | Op::OpenDir | Op::RealPath | Op::ReadDir | Op::Read | Op::ReadLink | Op::Stat)
}

pub struct Outcome {
    pub got: Got,
    pub faults: Vec<(Op, String, i32)>,
    pub calls: usize,
}
pub fn run(cx: &mut Cx, sc: &Scene, ctl: &mut dyn FnMut(&sys::Call) -> Act) -> Result<Outcome, Bad> {
    let root = realise(cx, &sc.fs);
    let path = root.join(sc.path);
    let mut faults = vec![];
    let mut calls = 0;
    let (fl, ca) = (&mut faults, &mut calls);
    let got = guarded(cx, sc.fs.len(), || {
        sys::with(
            Box::new(|ev| match ev {
                Ev::Call(c) => {
                    *ca += 1;
                    let a = ctl(c);
                    if let Act::Fail(e) = a {
                        fl.push((c.op, c.path.clone(), e));
                    }
                    a
                }
                Ev::Opened(..) => Act::Pass,
            }),
            || parse(sc, &path),
        )
    })?;
    if got.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    cx.count("system_calls", calls as u64);
    cx.count("faults_injected", faults.len() as u64);
    Ok(Outcome { got, faults, calls })
}
fn parse(sc: &Scene, path: &Path) -> Got {
    if sc.section {
        Parser::new().parse_section(path).map(|s| obs::section(&s)).map_err(|e| e.to_string())
    } else {
        Parser::new().parse_notebook(path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
    }
}
fn promised(sc: &Scene) -> Result<T, crate::model::X> {
    if sc.section {
        match sc.fs.file(sc.path) {
            Some(F::Section(ir, _)) => crate::model::expect_section(ir, leaf(sc.path)),
            _ => unreachable!(),
        }
    } else {
        promise(&sc.fs, sc.path).sure()
    }
}
/// With faults: an error, never anything but the whole content.
pub fn judge_faults(cx: &mut Cx, sc: &Scene, o: &Outcome, harmless: bool) -> R {
    let exp = promised(sc);
    if cx.verbose {
        eprintln!("scene {}: faults {:?} in {} calls; {}", sc.name, o.faults, o.calls, match &o.got { Ok(_) => "a result".into(), Err(e) => format!("error {e}") });
    }
    if o.faults.is_empty() || harmless {
        return judge(cx, &exp, &o.got);
    }
    cx.outcome = got_hash(&o.got);
    match (&o.got, &exp) {
        (Err(_), _) => Ok(()),
        (Ok(_), Err(crate::model::X::Err)) => bad("accepted after a fault", format!("{}: a notebook that has to be refused was accepted when {:?} failed", sc.name, o.faults)),
        (Ok(a), Ok(b)) => match diff(b, a) {
            Some((_, d)) => bad("partial", format!("{}: a different result was returned although {:?} failed: {d}", sc.name, o.faults)),
            None => match o.faults.iter().find(|f| f.2 != libc::EINTR && essential(f.0)) {
                Some(f) => bad("fault ignored", format!("{}: the failure of {f:?} was not reported", sc.name)),
                None => Ok(()),
            },
        },
        (Ok(_), Err(crate::model::X::Any)) => Ok(()),
    }
}
fn mix(cx: &mut Cx, sc: &Scene, sched: &[(usize, i64)]) {
    cx.mix(sc.name.as_bytes());
    for (a, b) in sched {
        cx.mix(&[(*a as u64).to_le_bytes(), (*b as u64).to_le_bytes()].concat());
    }
}
pub fn errnos(op: Op, all: bool) -> &'static [i32] {
    use libc::*;
    // not ENOENT and ENOTDIR: they are answers, not failures
    match (op, all) {
        (Op::Open, true) => &[EACCES, EIO, EMFILE, ELOOP, ENOMEM, EPERM, ENFILE, EOVERFLOW, ENXIO, ESTALE],
        (Op::Read, true) => &[EIO, EISDIR, EAGAIN, EBADF, ENOMEM, ESTALE, EINVAL, ENXIO],
        (Op::Stat | Op::FdStat, true) => &[EACCES, EIO, ELOOP, ENOMEM, EOVERFLOW, ENAMETOOLONG, ESTALE, EPERM],
        (Op::RealPath, true) => &[EACCES, EIO, ELOOP, ENOMEM, ENAMETOOLONG, ENOENT, ENOTDIR],
        (Op::OpenDir, true) => &[EACCES, EIO, EMFILE, ENOMEM, ENFILE, ENOENT, ENOTDIR, EPERM],
        (Op::ReadDir, true) => &[EIO, EBADF, EOVERFLOW, ENOMEM, EACCES, ESTALE],
        (_, true) => &[EIO, EACCES, ESPIPE],
        (_, false) => &[EIO, EACCES],
    }
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new(
        "no-fault",
        "each of the scenes without a fault",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let o = run(cx, sc, &mut |_| Act::Pass)?;
            mix(cx, sc, &[]);
            judge_faults(cx, sc, &o, false)
        },
    ));
    v.push(Space::new(
        "one-fault",
        "every file-system call of each of 7 scenes (notebook with groups, single section, links, mixed directory, escaping link, escaping group, large file) fails with each of 6 to 10 error codes; the parse after it works again",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let mut done = false;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if done || c.op == Op::Write {
                    return Act::Pass;
                }
                let e = errnos(c.op, true);
                match ch.choose("error", e.len() + 1) {
                    0 => Act::Pass,
                    i => {
                        done = true;
                        at.push((k, e[i - 1] as i64));
                        Act::Fail(e[i - 1])
                    }
                }
            })?;
            mix(cx, sc, &at);
            judge_faults(cx, sc, &o, false)?;
            let o = run(cx, sc, &mut |_| Act::Pass)?;
            judge_faults(cx, sc, &o, false)
        },
    ));
    let b = if deep { 3 } else { 2 };
    v.push(Space::new(
        "several-faults",
        format!("every set of up to {b} failing calls (EIO or EACCES{}) of each scene", if deep { ", one code for the third" } else { "" }),
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let mut left = b;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if left == 0 || c.op == Op::Write {
                    return Act::Pass;
                }
                let e = errnos(c.op, false);
                let n = if left == 3 || (b == 3 && left == 1) { 1 } else { 2 };
                match ch.choose("error", n + 1) {
                    0 => Act::Pass,
                    i => {
                        left -= 1;
                        at.push((k, e[i - 1] as i64));
                        Act::Fail(e[i - 1])
                    }
                }
            })?;
            mix(cx, sc, &at);
            judge_faults(cx, sc, &o, false)
        },
    ));
    v.push(Space::new(
        "from-here-on",
        "from every call on, all further calls, or all further calls of the same kind, fail with one of two codes (a file system that goes away, descriptors that run out)",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let kind = ch.flag("same kind");
            let mut from: Option<(Op, i32)> = None;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                match from {
                    Some((op, e)) => {
                        if !kind || op == c.op {
                            Act::Fail(e)
                        } else {
                            Act::Pass
                        }
                    }
                    None => match ch.choose("error", 3) {
                        0 => Act::Pass,
                        i => {
                            let e = errnos(c.op, false)[i - 1];
                            from = Some((c.op, e));
                            at.push((k + 1000 * kind as usize, e as i64));
                            Act::Fail(e)
                        }
                    },
                }
            })?;
            mix(cx, sc, &at);
            judge_faults(cx, sc, &o, false)
        },
    ));
    v.push(Space::new(
        "one-short-read",
        "every read of each scene delivers every possible smaller number of bytes once",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let mut done = false;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if done || c.op != Op::Read {
                    return Act::Pass;
                }
                match cut(ch, c) {
                    None => Act::Pass,
                    Some(i) => {
                        done = true;
                        at.push((k, i as i64));
                        Act::Short(i)
                    }
                }
            })?;
            mix(cx, sc, &at);
            judge_faults(cx, sc, &o, true)
        },
    ));
    v.push(Space::new(
        "short-and-interrupted-reads",
        format!("up to 3 reads (and opens) of the notebook with groups{} and a single section are interrupted or deliver 1, 2, 15, 16, 17, 64 or 500 bytes", if deep { ", up to 4 of the escaping group" } else { "" }),
        move |ch, cx| {
            const S: [usize; 7] = [1, 2, 15, 16, 17, 64, 500];
            let which = *ch.pick("scene", if deep { &[0usize, 1, 5] } else { &[0usize, 1] });
            let sc = &SCENES[which];
            let nn = if deep && which > 0 { 4 } else { 3 };
            let mut left = nn;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if left == 0 || !matches!(c.op, Op::Read | Op::Open) {
                    return Act::Pass;
                }
                let n = if c.op == Op::Open {
                    2
                } else if sc.section || left == nn {
                    9
                } else {
                    4
                };
                match ch.choose("read", n) {
                    0 => Act::Pass,
                    1 => {
                        left -= 1;
                        at.push((k, -1));
                        Act::Fail(libc::EINTR)
                    }
                    i => {
                        left -= 1;
                        at.push((k, i as i64));
                        Act::Short(S[i - 2])
                    }
                }
            })?;
            mix(cx, sc, &at);
            judge_faults(cx, sc, &o, true)
        },
    ));
    let um = if deep { 2000 } else { 400 };
    v.push(Space::new(
        "all-reads-short",
        format!("every read of each scene delivers at most k bytes, for every k in 1..={um}, alone or with every second or third read interrupted"),
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let k = 1 + ch.choose("bytes", um);
            let every = ch.choose("interrupted", 3);
            let mut i = 0;
            let o = run(cx, sc, &mut |c| {
                if c.op != Op::Read {
                    return Act::Pass;
                }
                i += 1;
                if every > 0 && i % (every + 1) == 0 { Act::Fail(libc::EINTR) } else { Act::Short(k) }
            })?;
            mix(cx, sc, &[(k, every as i64)]);
            judge_faults(cx, sc, &o, true)
        },
    ));
    v.push(Space::new(
        "reported-sizes",
        "each size the system reports for a file of each scene (on the open file or its path) is replaced by 0, 1, 16, half, one less, one more, double, a page or a mebibyte; all of them by 0, 1 or one less; with and without short reads",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let all = ch.choose("all", 4);
            let short = *ch.pick("reads", if sc.name == "large" { &[0usize, 5000] } else { &[0usize, 1, 100] });
            let mut done = false;
            let mut at = vec![];
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if c.op == Op::Read && short > 0 {
                    return Act::Short(short);
                }
                if !matches!(c.op, Op::FdStat | Op::Stat) || (done && all == 0) {
                    return Act::Pass;
                }
                let Ok(m) = std::fs::metadata(&c.path) else { return Act::Pass };
                if !m.is_file() {
                    return Act::Pass;
                }
                let n = m.len();
                let v = [0, 1, 16, n / 2, n - 1, n + 1, 2 * n, 4096, 1 << 20];
                match all {
                    0 => match ch.choose("size", v.len() + 1) {
                        0 => Act::Pass,
                        i => {
                            done = true;
                            at.push((k, i as i64));
                            Act::Size(v[i - 1])
                        }
                    },
                    i => Act::Size([0, 1, n - 1][i - 1]),
                }
            })?;
            mix(cx, sc, &at);
            cx.mix(&[all as u8, short as u8, (short >> 8) as u8]);
            judge_faults(cx, sc, &o, true)
        },
    ));
    v.push(Space::new(
        "premature-end",
        "each read of each scene, after a first delivery of every size, reports the end of the file (a file that shrinks)",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let mut st = 0;
            let mut at = vec![];
            let mut file = String::new();
            let mut k = 0;
            let o = run(cx, sc, &mut |c| {
                k += 1;
                if c.op != Op::Read {
                    return Act::Pass;
                }
                match st {
                    0 => {
                        match cut(ch, c) {
                            None => Act::Pass,
                            Some(i) => {
                                at.push((k, i as i64));
                                file = c.path.clone();
                                st = 1;
                                Act::Short(i - 1)
                            }
                        }
                    }
                    _ if c.path == file => Act::Short(0),
                    _ => Act::Pass,
                }
            })?;
            mix(cx, sc, &at);
            let exp = promised(sc);
            cx.outcome = got_hash(&o.got);
            match (&o.got, &exp) {
                (Ok(a), Ok(b)) => match diff(b, a) {
                    Some((_, d)) => bad("partial", format!("{}: a file that ended early gave a different result: {d}", sc.name)),
                    None => Ok(()),
                },
                (Ok(_), Err(crate::model::X::Err)) => bad("accepted", format!("{}: accepted although it has to be refused", sc.name)),
                _ => Ok(()),
            }
        },
    ));
    v
}
