//! One parser used by several threads at once, under every schedule within a
//! bound on preemptions.
use crate::checks::c06::{CallOp, agree, nested, seeded, small};
use crate::explore::*;
use crate::fsm::*;
use crate::ids::*;
use crate::model::*;
use crate::obs;
use crate::rich;
use crate::sched::Sched;
use crate::shared;
use crate::store::*;
use crate::sys;
use crate::util::*;
use onenote_parser::Parser;
use std::path::Path;
use std::sync::LazyLock;

/// calls made by a thread each, under a plan
fn concurrent(cx: &mut Cx, calls: &[usize], first: usize, plan: &[usize]) -> R {
    scheduled(cx, calls, first, plan, false).map(|_| ())
}
/// returns the number of scheduling points of each thread
fn scheduled(cx: &mut Cx, calls: &[usize], first: usize, plan: &[usize], only_shared: bool) -> Result<Vec<u64>, Bad> {
    let parser = Parser::new();
    let root = realise(cx, &CONC.1);
    let s = Sched::new(calls.len(), first, plan, only_shared);
    let out: Vec<Result<Got, Bad>> = std::thread::scope(|sc| {
        let h: Vec<_> = calls
            .iter()
            .enumerate()
            .map(|(me, i)| {
                let (s, parser, root) = (&s, &parser, &root);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || {
                        sys::set_seed(7 + me as u64);
                        let mut c = Cx::new(0);
                        s.run(me, || conc_call(&mut c, parser, root, *i))
                    })
                    .expect("thread")
            })
            .collect();
        h.into_iter().map(|h| h.join().expect("harness thread")).collect()
    });
    cx.calls += calls.len() as u64;
    let steps: Vec<u64> = (0..calls.len()).map(|i| s.steps(i)).collect();
    cx.count(if only_shared { "shared_memory_accesses" } else { "scheduling_points" }, steps.iter().sum());
    cx.count("lock_waits", s.waits.load(std::sync::atomic::Ordering::SeqCst));
    let names: Vec<&str> = calls.iter().map(|i| CONC.0[*i].0).collect();
    for (t, (i, g)) in calls.iter().zip(out).enumerate() {
        let g = g?;
        match &g {
            Ok(_) => cx.ok += 1,
            Err(_) => cx.err += 1,
        }
        agree(&CONC.0[*i].2, &g, &format!("the call of thread {t}, threads at calls {names:?}"))?;
        cx.outcome = cx.outcome.wrapping_mul(31) ^ got_hash(&g);
    }
    Ok(steps)
}
fn conc_call(cx: &mut Cx, parser: &Parser, root: &Path, i: usize) -> Result<Got, Bad> {
    let c = &CONC_CALLS[i].1;
    let (path, len) = match c {
        CallOp::Buf(b, n) => (Path::new(n).to_path_buf(), b.len()),
        CallOp::File(b, n) => (root.join(n), b.len()),
        CallOp::Book(_) | CallOp::Toc(_) => (root.join("nb/t.onetoc2"), 10_000),
        CallOp::Missing(_) => (root.join("nb/gone.one"), 0),
    };
    guarded(cx, len, || match c {
        CallOp::Buf(b, _) => parser.parse_section_buffer(b, &path).map(|s| obs::section(&s)).map_err(|e| e.to_string()),
        CallOp::Book(_) | CallOp::Toc(_) => parser.parse_notebook(&path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string()),
        _ => parser.parse_section(&path).map(|s| obs::section(&s)).map_err(|e| e.to_string()),
    })
}
/// the section of every kind with as many attributes as possible changed
pub fn others() -> StoreIR {
    let mut ir = rich::rich();
    let ok = |ir: &StoreIR| crate::model::expect_section(ir, NAME).is_ok();
    assert!(ok(&ir));
    for q in super::c08::lists(&ir.clone()) {
        for i in 0..super::c08::list(&mut ir, &q).len() {
            let x = &mut super::c08::list(&mut ir, &q)[i];
            let old = x.v.clone();
            match &mut x.v {
                PV::Bool(x) => *x = !*x,
                PV::U8(x) => *x ^= 1,
                PV::U16(x) => *x ^= 1,
                PV::U32(x) => *x ^= 1,
                PV::U64(x) => *x ^= 1,
                PV::Vec(x) if !x.is_empty() => x[0] ^= 1,
                _ => continue,
            }
            if !ok(&ir) {
                super::c08::list(&mut ir, &q)[i].v = old;
            }
        }
    }
    for b in &mut ir.blobs {
        b.1.reverse();
    }
    ir
}
static CONC_CALLS: LazyLock<Vec<(&'static str, CallOp)>> = LazyLock::new(|| {
    let d = BuildOpts::default();
    let one = |s: &str| {
        let mut ir = small();
        let o = ir.spaces[1].revs[0].groups[0].objs.iter_mut().find(|o| o.jcid == jc::RichTextNode).unwrap();
        o.props.iter_mut().find(|x| x.id == p::RichEditTextUnicode & 0x3ffffff).unwrap().v = PV::s(s);
        ir.build(&d).bytes()
    };
    let mut cyc = small();
    cyc.spaces[1].revs[0].base = cyc.spaces[1].revs[0].rev;
    let mut cut = one("cut");
    cut.truncate(cut.len() - 30);
    vec![
        ("small", CallOp::Buf(one("first"), NAME)),
        ("small, other text", CallOp::Buf(one("second"), NAME)),
        ("cut", CallOp::Buf(cut, NAME)),
        ("cyclic", CallOp::Buf(cyc.build(&d).bytes(), NAME)),
        ("nested", CallOp::Buf(nested(6), NAME)),
        ("file", CallOp::File(one("on disk"), "s.one")),
        ("notebook", CallOp::Book(vec![])),
        ("missing", CallOp::Missing(true)),
        ("deep", CallOp::Buf(nested(38), NAME)),
        ("too deep", CallOp::Buf(nested(400), NAME)),
        ("every kind", CallOp::Buf(rich::rich().build(&d).bytes(), NAME)),
        ("every kind, other values", CallOp::Buf(others().build(&d).bytes(), NAME)),
    ]
});
/// name, scheduling points and answer of each call made alone
static CONC: LazyLock<(Vec<(&'static str, usize, Got)>, Fs)> = LazyLock::new(|| {
    let mut f = Fs::default();
    let CallOp::File(b, _) = &CONC_CALLS[5].1 else { unreachable!() };
    f.put("s.one", Nd::File(F::raw(b)))
        .put("nb/t.onetoc2", toc(&["A.one", "g"]))
        .put("nb/A.one", sec(0))
        .put("nb/g/a.onetoc2", toc(&["B.one"]))
        .put("nb/g/B.one", sec(1));
    // an own thread and scratch directory
    let v = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
            let mut cx = Cx::new(999);
            let root = realise(&mut cx, &f);
            (0..CONC_CALLS.len())
                .map(|i| {
                    let (r, n) = seeded(7, || Sched::count(|| conc_call(&mut Cx::new(0), &Parser::new(), &root, i)));
                    // rounded up: the count varies a little with the name of the scratch directory
                    (CONC_CALLS[i].0, (n + 40).next_multiple_of(64), r.unwrap_or_else(|b| Err(b.msg)))
                })
                .collect()
        })
        .expect("thread")
        .join()
        .expect("harness thread")
    });
    (v, f)
});

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    let small_n = 8;
    let n = if deep { CONC_CALLS.len() } else { small_n };
    v.push(Space::new(
        "schedules-1",
        format!("two threads making any two of {n} calls on one shared parser: every point (allocation, release, file-system call, lock wait) at which the first one is preempted by the other, which then runs to its end"),
        move |ch, cx| {
            let (a, b) = (ch.choose("first thread", n), ch.choose("second thread", n));
            let k = ch.choose("preempted at", CONC.0[a].1);
            cx.mix(&[a as u8, b as u8]);
            cx.mix(&(k as u64).to_le_bytes());
            concurrent(cx, &[a, b], 0, &[k])
        },
    ));
    v.push(Space::new(
        "schedules-2",
        if deep { "the same with two preemptions at any two points, 6 pairs of small calls".to_string() } else { "the same with two preemptions, the second one at every 8th point, 2 pairs of small calls".to_string() },
        move |ch, cx| {
            let pairs: &[(usize, usize)] = if deep { &[(0, 1), (0, 3), (2, 0), (1, 7), (3, 3), (5, 0)] } else { &[(0, 1), (2, 3)] };
            let st = if deep { 1 } else { 8 };
            let &(a, b) = ch.pick("pair", pairs);
            let k = ch.choose("preempted at", CONC.0[a].1);
            let l = ch.choose("preempted again at", CONC.0[b].1.div_ceil(st)) * st;
            cx.mix(&[a as u8, b as u8]);
            cx.mix(&(k as u64).to_le_bytes());
            cx.mix(&(l as u64).to_le_bytes());
            concurrent(cx, &[a, b], 0, &[k, l])
        },
    ));
    v.push(Space::new(
        "schedules-large",
        "one preemption at every 4th point (thorough: one at every point, or two at every 64th) of two threads parsing deeply nested content, content nested too deeply, and every kind of content",
        move |ch, cx| {
            let &(a, b) = ch.pick("pair", &[(8usize, 8usize), (8, 9), (9, 8), (10, 8), (8, 10), (10, 10), (10, 11)]);
            let twice = deep && ch.flag("twice");
            let st = if twice { 64 } else if deep { 1 } else { 4 };
            let mut plan = vec![ch.choose("preempted at", CONC.0[a].1.div_ceil(st)) * st];
            if twice {
                plan.push(ch.choose("preempted again at", CONC.0[b].1.div_ceil(st)) * st);
            }
            cx.mix(&[a as u8, b as u8]);
            for x in &plan {
                cx.mix(&(*x as u64).to_le_bytes());
            }
            concurrent(cx, &[a, b], 0, &plan)
        },
    ));
    v.push(Space::new(
        "schedules-3",
        "three preemptions at every 16th (thorough: 4th) point of two threads parsing two different small sections, started by either of them",
        move |ch, cx| {
            let st = if deep { 4 } else { 16 };
            let f = ch.choose("starts", 2);
            let n = |i: usize| CONC.0[i].1.div_ceil(st);
            let (a, b) = (0, 1);
            let w = [a, b];
            let k = ch.choose("preempted at", n(w[f])) * st;
            let l = ch.choose("preempted again at", n(w[1 - f])) * st;
            let left = CONC.0[w[f]].1.saturating_sub(k).div_ceil(st).max(1);
            let m = ch.choose("and again at", left) * st;
            cx.mix(&[f as u8]);
            for x in [k, l, m] {
                cx.mix(&(x as u64).to_le_bytes());
            }
            concurrent(cx, &[a, b], f, &[k, l, m])
        },
    ));
    let most = if deep { 32 } else { 8 };
    v.push(Space::new(
        "many-threads",
        format!("3, 4, 8 (thorough: and 32) threads on one shared parser, each preempted by the next one at the same point of its call, for every point (8 threads and more: every 4th; thorough: every point): all making the same one of {n} calls, or neighbouring ones"),
        move |ch, cx| {
            let threads = *ch.pick("threads", &[3usize, 4, 8, 32][..if deep { 4 } else { 3 }]);
            let a = ch.choose("call", n);
            let step = ch.choose("difference", 2);
            let calls: Vec<usize> = (0..threads).map(|t| (a + t * step) % n).collect();
            let st = match (deep, threads > 4) {
                (false, true) => 4,
                (true, true) if threads > 8 => 16,
                _ => 1,
            };
            let k = ch.choose("preempted at", CONC.0[a].1.div_ceil(st)) * st;
            cx.mix(&[a as u8, step as u8, threads as u8, most as u8]);
            cx.mix(&(k as u64).to_le_bytes());
            concurrent(cx, &calls, 0, &vec![k; threads - 1])
        },
    ));
    v.push(Space::new(
        "three-threads",
        "three threads parsing different small sections, the first preempted at every 16th (thorough: 2nd) point by the second, and that one at every 16th (thorough: 2nd) point by the third",
        move |ch, cx| {
            let st = if deep { 2 } else { 16 };
            let calls = *ch.pick("calls", &[[0usize, 1, 0], [1, 5, 0], [4, 0, 1]]);
            let k = ch.choose("preempted at", CONC.0[calls[0]].1.div_ceil(st)) * st;
            let l = ch.choose("second preempted at", CONC.0[calls[1]].1.div_ceil(st)) * st;
            cx.mix(&calls.map(|c| c as u8));
            for x in [k, l] {
                cx.mix(&(x as u64).to_le_bytes());
            }
            concurrent(cx, &calls, 0, &[k, l])
        },
    ));
    v.push(Space::new(
        "shared-memory",
        "two (or three) threads making any two of 12 calls (or the same one): every access of the library to its static variables is seen; preemptions at every choice of up to two (thorough: three) of the accesses (at most 200, thorough: 2000, in each call). A pair without any access has one schedule up to equivalence",
        move |ch, cx| {
            let w = shared::watch();
            cx.count("bytes_of_static_variables", shared::bytes() as u64);
            let (a, b) = (ch.choose("first thread", CONC_CALLS.len()), ch.choose("second thread", CONC_CALLS.len()));
            let calls = if a == b && ch.flag("third thread") { vec![a; 3] } else { vec![a, b] };
            cx.mix(&calls.iter().map(|c| *c as u8).collect::<Vec<_>>());
            // how many accesses the calls make if they are made one after the other
            let alone = scheduled(cx, &calls, 0, &[], true)?;
            let bound = |i: usize| alone[i % calls.len()].min(if deep { 2000 } else { 200 }) as usize;
            let mut plan = vec![];
            for i in 0..if deep { 3 } else { 2 } {
                // the last choice stands for no further preemption
                let k = ch.choose("preempted at access", bound(i) + 1);
                if k == bound(i) {
                    break;
                }
                plan.push(k);
            }
            for x in &plan {
                cx.mix(&(*x as u64).to_le_bytes());
            }
            if !plan.is_empty() {
                scheduled(cx, &calls, 0, &plan, true)?;
            }
            drop(w);
            Ok(())
        },
    ));
    v
}
