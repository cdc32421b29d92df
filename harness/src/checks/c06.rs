//! The result is a function of the bytes: not of hash seeds, stored order,
//! directory order or earlier calls.
use crate::checks::c01;
use crate::checks::c05;
use crate::checks::c07;
use crate::enc::*;
use crate::explore::*;
use crate::fsm::*;
use crate::ids::*;
use crate::model::*;
use crate::obs;
use crate::rich;
use crate::store::*;
use crate::sys;
use crate::tree::*;
use crate::util::*;
use onenote_parser::Parser;
use std::path::Path;
use std::sync::LazyLock;

/// Run `f` on a thread of its own whose hash seeds are determined by `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                sys::set_seed(seed);
                f()
            })
            .expect("thread")
            .join()
            .expect("harness thread")
    })
}
fn parse_seeded(cx: &mut Cx, seed: u64, bytes: &[u8], name: &str) -> Result<Got, Bad> {
    seeded(seed, || parse_buf(cx, bytes, name))
}
pub fn agree(a: &Got, b: &Got, what: &str) -> R {
    match (a, b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Ok(y)) => match diff(x, y) {
            None => Ok(()),
            Some((k, d)) => bad(format!("differs: {k}"), format!("{what}: {d}")),
        },
        (Ok(_), Err(e)) => bad("differs: outcome", format!("{what}: a result the first time, then error {e}")),
        (Err(e), Ok(_)) => bad("differs: outcome", format!("{what}: error {e} the first time, then a result")),
    }
}

// ------------------------------------------------------------ ambiguous files

struct Scene {
    name: String,
    bytes: Vec<u8>,
    exp: Option<XR<T>>,
}
fn page3() -> StoreIR {
    c07::pages(&[vec![2, 3], vec![4, 2]])
}
fn index(pk: &mut Package) -> &mut Vec<SI> {
    pk.elems
        .iter_mut()
        .find_map(|e| match &mut e.body {
            Body::StorageIndex(v) => Some(v),
            _ => None,
        })
        .expect("index")
}
fn manifest(pk: &mut Package) -> &mut Vec<(Ex, Cell)> {
    pk.elems
        .iter_mut()
        .find_map(|e| match &mut e.body {
            Body::StorageManifest { roots, .. } => Some(roots),
            _ => None,
        })
        .expect("manifest")
}
/// a second page cell with its own text, reachable from nothing
fn text_page(n: u32, s: &str) -> SpaceIR {
    let mut b = B::new();
    let t = b.para(s);
    let o = b.wrap(&[t]);
    page_space(n, b, &[o], None).0
}
/// as if cell `n` were reached by serial number only; `k` mappings share it
fn by_serial(k: u32, same: bool, header: bool) -> Package {
    let mut ir = page3();
    for i in 0..k {
        ir.spaces.push(text_page(20 + i, &format!("candidate {i}")));
    }
    let mut pk = ir.build(&BuildOpts::default());
    let hm = eid(3);
    let c = if header { hdr_cell() } else { cell(2) };
    let target = eid(20_001);
    for s in index(&mut pk) {
        match s {
            SI::Cell { cell: x, id, serial } if *x == c => {
                *id = eid(424_242);
                *serial = Some((GSER, 4242));
            }
            SI::Rev { id, map, serial } if (20..20 + k).any(|i| *id == Ex::new(GREV, 1000 * i)) => {
                *serial = Some((GSER, 4242));
                if same {
                    *map = target;
                }
            }
            _ => {}
        }
    }
    if header {
        pk.elems.retain(|e| e.id != hm);
    }
    pk
}
static SCENES: LazyLock<Vec<Scene>> = LazyLock::new(|| {
    let mut v: Vec<Scene> = vec![];
    let mut put = |name: String, pk: Package, exp: Option<XR<T>>| v.push(Scene { name, bytes: pk.bytes(), exp });
    let d = BuildOpts::default();
    let r = rich::rich();
    put("every kind of content".into(), r.build(&d), Some(expect_section(&r, NAME)));
    let p3 = page3();
    let e3 = expect_section(&p3, NAME);
    put("three pages".into(), p3.build(&d), Some(e3.clone()));
    let s20 = rich::rich_toc();
    put("a table of contents as a section".into(), s20.build(&d), Some(Err(X::Err)));

    // several storage indexes
    for n in 2..5u32 {
        for hit in [true, false] {
            let mut pk = p3.build(&d);
            let other = page3_alt().build(&d);
            let oi = other.elems[0].body.clone();
            for i in 0..n - 1 {
                let mut b = oi.clone();
                if let (Body::StorageIndex(x), true) = (&mut b, i > 0) {
                    x.truncate(4 + i as usize);
                }
                pk.elems.insert((i as usize * 3) % pk.elems.len(), Elem::new(eid(600 + i), b));
            }
            if !hit {
                pk.storage_index = eid(999_999);
            }
            put(format!("{n} storage indexes, the header names {}", if hit { "one" } else { "none" }), pk, hit.then(|| e3.clone()));
        }
    }
    // several storage manifests
    for n in 2..5u32 {
        for hit in 0..4 {
            let mut pk = p3.build(&d);
            let sm = pk.elems.iter().find(|e| e.id == eid(2)).unwrap().clone();
            for i in 0..n - 1 {
                let mut e = sm.clone();
                e.id = eid(700 + i);
                if let Body::StorageManifest { roots, .. } = &mut e.body {
                    roots[1].1 = cell(2 + i);
                }
                pk.elems.insert(i as usize * 2, e);
            }
            let si = index(&mut pk);
            let m = |n: u32| SI::Manifest { id: eid(n), serial: None };
            match hit {
                0 => {}
                1 => si.retain(|s| !matches!(s, SI::Manifest { .. })),
                2 => si[0] = m(555_555),
                _ => si.splice(0..1, [m(555_555), m(700), m(2)]).for_each(drop),
            }
            put(format!("{n} storage manifests, index entry variant {hit}"), pk, (hit == 0).then(|| e3.clone()));
        }
    }
    // ambiguous serial numbers
    for k in 1..5 {
        for same in [true, false] {
            for header in [true, false] {
                put(format!("{k} mappings share the cell's serial number (same target: {same}, header cell: {header})"), by_serial(k, same, header), None);
            }
        }
    }
    // repeated mappings, elements, declarations, roots, properties
    for k in 2..4usize {
        let mut pk = p3.build(&d);
        for i in 0..k {
            index(&mut pk).push(SI::Cell { cell: cell(2), id: eid(1000 * (2 + i as u32)), serial: Some((GSER, 77)) });
        }
        put(format!("{k} further mappings of one cell"), pk, None);
        let mut pk = p3.build(&d);
        for i in 0..k {
            index(&mut pk).push(SI::Rev { id: Ex::new(GREV, 2000), map: eid(1000 * (2 + i as u32) + 1), serial: None });
        }
        put(format!("{k} further mappings of one revision"), pk, None);
        for id in [1000u32, 2000, 2001, 2002] {
            let mut pk = p3.build(&d);
            for i in 0..k {
                let mut e = pk.elems.iter().find(|e| e.id == eid(id % 1000 + 1000 * (2 + i as u32))).unwrap().clone();
                e.id = eid(id);
                pk.elems.push(e);
            }
            put(format!("element {id} stored {k} more times"), pk, None);
        }
        let mut pk = p3.build(&d);
        for i in 0..k {
            manifest(&mut pk).push((Ex::new(C.data_root, 2), cell(2 + i as u32)));
        }
        put(format!("{k} further data roots"), pk, None);
    }
    for k in 2..6u32 {
        // one object several times in a group, across groups, and two roots of one role
        let mut ir = page3();
        let t = ir.spaces[1].revs[0].groups[0].objs.iter().find(|o| o.jcid == jc::RichTextNode).unwrap().clone();
        for i in 0..k {
            let mut o = t.clone();
            o.props.push(prs(p::RichEditTextUnicode, &format!("copy {i}")));
            ir.spaces[1].revs[0].groups[0].objs.push(o);
        }
        put(format!("an object {k} more times in its group"), ir.build(&d), None);
        let mut ir = page3();
        for i in 0..k {
            let mut o = t.clone();
            o.props.push(prs(p::RichEditTextUnicode, &format!("copy {i}")));
            ir.spaces[1].revs[0].groups.push(GroupIR { id: eid(8800 + i), objs: vec![o] });
        }
        put(format!("an object in {k} more groups"), ir.build(&d), None);
        let mut ir = page3();
        for i in 0..k {
            ir.spaces[1].revs[0].roots.push((1 + i % 2, xo(990_001 + i % 3)));
        }
        put(format!("{k} more roots"), ir.build(&d), None);
        // the same property several times
        let mut ir = page3();
        let o = ir.spaces[1].revs[0].groups[0].objs.iter_mut().find(|o| o.jcid == jc::RichTextNode).unwrap();
        for i in 0..k {
            o.props.insert(i as usize % 2, Prop::new(p::RichEditTextUnicode, PV::s(&format!("value {i}"))));
        }
        put(format!("a property {k} more times"), ir.build(&d), None);
        // ... with references
        let mut ir = page3();
        let o = ir.spaces[1].revs[0].groups[0].objs.iter_mut().find(|o| o.jcid == jc::OutlineElementNode).unwrap();
        let refs: Vec<Prop> = o.props.iter().filter(|x| matches!(x.v, PV::Oids(_) | PV::Oid(_))).cloned().collect();
        for i in 0..k as usize {
            o.props.push(refs[i % refs.len()].clone());
        }
        put(format!("{k} repeated reference properties"), ir.build(&d), None);
    }
    // broken object spaces, one to four of them, each for its own reason
    for k in 1..4usize {
        let mut ir = page3();
        for i in 0..k {
            let s = &mut ir.spaces[1 + i];
            match i {
                0 => s.revs[0].groups[0].id = eid(333_333),
                1 => s.revs[0].base = eid(444_444),
                _ => s.revs[0].manifest = eid(555_555),
            }
        }
        let mut pk = ir.build(&d);
        pk.elems.retain(|e| ![333_333, 444_444, 555_555].iter().any(|n| e.id == eid(*n)));
        put(format!("{k} broken pages"), pk, Some(Err(X::Err)));
    }
    // one revision shared by several cells, and cells that differ only in their context
    for k in 1..4u32 {
        let mut ir = page3();
        for i in 0..k {
            let mut s = ir.spaces[1].clone();
            s.cell = Cell(ir.spaces[1].cell.0, Ex::new([0x77; 16], i));
            ir.spaces.push(s);
        }
        let mut pk = ir.build(&d);
        c05::dedup(&mut pk);
        put(format!("a revision shared with {k} further spaces"), pk, None);
        let mut ir = page3();
        for i in 0..k {
            let mut s = text_page(30 + i, &format!("context {i}"));
            s.cell = Cell(Ex::new([0x78; 16], i), ir.spaces[1].cell.1);
            ir.spaces.push(s);
        }
        put(format!("{k} further cells of the same object space"), ir.build(&d), Some(e3.clone()));
    }
    // revision histories whose links have several readings
    for k in 0..4 {
        let mut ir = page3();
        ir.spaces.push(text_page(40, "other reading"));
        let mut pk = ir.build(&d);
        let si = index(&mut pk);
        match k {
            // the cell manifest id is also a revision mapping
            0 => si.push(SI::Rev { id: eid(2000), map: eid(40_001), serial: None }),
            // the revision id is also a manifest id
            1 => {
                let mut e = pk.elems.iter().find(|e| e.id == eid(40_001)).unwrap().clone();
                e.id = Ex::new(GREV, 2000);
                pk.elems.push(e);
            }
            // nil mappings
            2 => {
                si.push(SI::Cell { cell: cell(50), id: Ex::NIL, serial: None });
                si.push(SI::Cell { cell: cell(51), id: Ex::NIL, serial: Some((GSER, 14)) });
                si.push(SI::Rev { id: Ex::NIL, map: eid(40_001), serial: None });
            }
            // the header and data root cells are the same
            _ => {
                let h = manifest(&mut pk)[0].1;
                manifest(&mut pk)[1].1 = h;
            }
        }
        put(format!("links with two readings, variant {k}"), pk, None);
    }
    // compact identifiers shared by many entries, positions decide
    for cid in [Cid::Collide, Cid::Mirror, Cid::Pick(0x5a5a_1b1b), Cid::Unique] {
        let bo = BuildOpts { oo: ObjOpts { cid, ..Default::default() }, ..Default::default() };
        let r = rich::rich();
        put(format!("compact identifiers {cid:?}"), r.build(&bo), Some(expect_section(&r, NAME)));
    }
    // many spaces
    let mut ir = page3();
    for i in 0..24 {
        ir.spaces.push(text_page(60 + i, &format!("extra {i}")));
    }
    put("24 further pages".into(), ir.build(&d), Some(e3));
    v
});
/// the same cells with other contents
fn page3_alt() -> StoreIR {
    let mut ir = page3();
    ir.spaces[1..].reverse();
    ir
}
/// a package in which each of four spaces is broken in a way the error text
/// tells apart: shows which one the library visited first
fn witness() -> Vec<u8> {
    let mut ir = page3();
    ir.spaces.push(text_page(5, "x"));
    ir.spaces[1].revs[0].groups[0].id = eid(333_333);
    ir.spaces[2].revs[0].base = eid(444_444);
    let o = &mut ir.spaces[3].revs[0].groups[0].objs[0];
    o.props = vec![Prop { id: 1, v: PV::Raw(31, vec![]) }];
    ir.spaces[4].revs[0].roots.push((9, xo(1)));
    let mut pk = ir.build(&BuildOpts::default());
    pk.elems.retain(|e| e.id != eid(333_333));
    pk.bytes()
}

// ------------------------------------------------------------ notebooks

fn nb_scenes() -> Vec<(&'static str, Fs, &'static str)> {
    let mut v = vec![];
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["A.one", "g", "B.one", "h"]))
        .put("nb/A.one", sec(0))
        .put("nb/B.one", sec(1))
        .put("nb/g/a.onetoc2", toc(&["C.one"]))
        .put("nb/g/C.one", sec(2))
        .put("nb/h/D.one", sec(3))
        .put("nb/h/z.onetoc2", toc(&["D.one"]));
    v.push(("groups", f, "nb/t.onetoc2"));
    // which table of contents is used is open, but it is always the same one
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["g"]))
        .put("nb/g/a.onetoc2", toc(&["C.one", "D.one"]))
        .put("nb/g/b.onetoc2", toc(&["D.one"]))
        .put("nb/g/c.onetoc2", Nd::File(F::raw(b"damaged")))
        .put("nb/g/C.one", sec(2))
        .put("nb/g/D.one", sec(3));
    v.push(("three tables", f, "nb/t.onetoc2"));
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["g", "A.one"]))
        .put("nb/A.one", sec(0))
        .put("nb/g/OneNote Table Of Contents.onetoc2", toc(&["h"]))
        .put("nb/g/Open Notebook.onetoc2", toc(&["C.one"]))
        .put("nb/g/C.one", sec(2))
        .put("nb/g/h/1.onetoc2", toc(&["E.one"]))
        .put("nb/g/h/2.onetoc2", toc(&["F.one"]))
        .put("nb/g/h/E.one", sec(4))
        .put("nb/g/h/F.one", sec(5));
    v.push(("two levels of two tables", f, "nb/t.onetoc2"));
    let mut f = Fs::default();
    f.put("nb/t.onetoc2", toc(&["g", "A.one"]))
        .put("nb/A.one", sec(0))
        .put("nb/g/a.onetoc2/x", Nd::File(F::raw(b"x")))
        .put("nb/g/b.onetoc2", link("q.onetoc2"))
        .put("nb/g/q.onetoc2", toc(&["C.one"]))
        .put("nb/g/C.one", sec(2));
    v.push(("a directory and a link among the tables", f, "nb/t.onetoc2"));
    v
}

// ------------------------------------------------------------ histories

#[derive(Clone)]
pub enum CallOp {
    /// buffer under a name
    Buf(Vec<u8>, &'static str),
    /// parse this file as a section after writing these bytes to it
    File(Vec<u8>, &'static str),
    /// parse the notebook after writing these bytes to its section A.one
    Book(Vec<u8>),
    /// parse this table of contents of a notebook without sections
    Toc(Vec<u8>),
    /// a notebook or file that is not there
    Missing(bool),
}
static CALLS: LazyLock<Vec<CallOp>> = LazyLock::new(|| {
    let d = BuildOpts::default();
    let a = page3().build(&d).bytes();
    // same identifiers everywhere, different text
    let b = page3_alt().build(&d).bytes();
    let mut r = page3();
    r.spaces[1].revs[0].groups[0].objs.retain(|o| o.jcid != jc::ParagraphStyleObject);
    let holes = r.build(&d).bytes();
    let mut cut = a.clone();
    cut.truncate(a.len() * 2 / 3);
    let mut broken = page3();
    broken.spaces[2].revs[0].base = eid(4_444_444);
    let broken = broken.build(&d).bytes();
    let rich = rich::rich().build(&d).bytes();
    let toc = rich::rich_toc().build(&d).bytes();
    let deep = nested(38);
    let deeper = nested(400);
    vec![
        CallOp::Buf(a.clone(), NAME),
        CallOp::Buf(b.clone(), NAME),
        CallOp::File(a.clone(), "s.one"),
        CallOp::File(b.clone(), "s.one"),
        CallOp::Book(a.clone()),
        CallOp::Book(b.clone()),
        CallOp::Buf(cut, NAME),
        CallOp::Buf(broken, NAME),
        CallOp::Buf(deeper, NAME),
        CallOp::Buf(deep, NAME),
        CallOp::Buf(a.clone(), "other.one"),
        CallOp::Buf(rich, NAME),
        CallOp::Buf(toc, NAME),
        CallOp::Buf(holes, NAME),
        CallOp::File(b"".to_vec(), "s.one"),
        CallOp::Book(b"".to_vec()),
        CallOp::Missing(true),
        CallOp::Missing(false),
    ]
});
/// outline elements nested `n` deep
pub fn nested(n: usize) -> Vec<u8> {
    let mut b = B::new();
    let t = b.para("innermost");
    let mut e = b.element(1, &[t], &[]);
    for i in 0..n {
        let t = b.para(&format!("level {i}"));
        e = b.element(1, &[t], &[e]);
    }
    let o = b.outline(&[e]);
    section1(b, &[o], None).build(&BuildOpts::default()).bytes()
}
fn do_call(cx: &mut Cx, parser: &mut Parser, c: &CallOp) -> Result<Got, Bad> {
    let dir = cx.scratch_dir().join("calls");
    if !dir.is_dir() {
        std::fs::create_dir_all(dir.join("nb")).unwrap();
        std::fs::write(dir.join("nb/t.onetoc2"), F::names(&["A.one"]).bytes().as_slice()).unwrap();
    }
    let put = |p: &Path, b: &[u8]| std::fs::write(p, b).unwrap();
    let (path, len) = match c {
        CallOp::Buf(b, n) => (Path::new(n).to_path_buf(), b.len()),
        CallOp::File(b, n) => {
            put(&dir.join(n), b);
            (dir.join(n), b.len())
        }
        CallOp::Book(b) => {
            put(&dir.join("nb/A.one"), b);
            (dir.join("nb/t.onetoc2"), b.len() + 2000)
        }
        CallOp::Toc(b) => {
            std::fs::create_dir_all(dir.join("toc")).unwrap();
            put(&dir.join("toc/t.onetoc2"), b);
            (dir.join("toc/t.onetoc2"), b.len())
        }
        CallOp::Missing(true) => (dir.join("gone/t.onetoc2"), 0),
        CallOp::Missing(false) => (dir.join("gone.one"), 0),
    };
    let mut wrote = None;
    let w = &mut wrote;
    let r = guarded(cx, len, || {
        sys::with(
            Box::new(|ev| {
                if let sys::Ev::Call(c) = ev {
                    if c.op == sys::Op::Write {
                        *w = Some(c.path.clone());
                    }
                }
                sys::Act::Pass
            }),
            || match c {
                CallOp::Buf(b, _) => parser.parse_section_buffer(b, &path).map(|s| obs::section(&s)).map_err(|e| e.to_string()),
                CallOp::File(..) | CallOp::Missing(false) => parser.parse_section(&path).map(|s| obs::section(&s)).map_err(|e| e.to_string()),
                _ => parser.parse_notebook(&path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string()),
            },
        )
    })?;
    if let Some(p) = wrote {
        return bad("written", format!("parsing wrote to {p}"));
    }
    // the inputs are as they were
    let now = match c {
        CallOp::File(b, _) => Some((&dir.join("s.one"), b)).map(|(p, b)| std::fs::read(p).unwrap() == *b),
        CallOp::Book(b) => Some(std::fs::read(dir.join("nb/A.one")).unwrap() == *b),
        _ => None,
    };
    if now == Some(false) {
        return bad("input modified", "a file was changed by parsing it".to_string());
    }
    match &r {
        Ok(_) => cx.ok += 1,
        Err(_) => cx.err += 1,
    }
    Ok(r)
}
/// the answer of a parser and a thread that have done nothing else
fn fresh(cx: &mut Cx, c: &CallOp) -> Result<Got, Bad> {
    seeded(1, || do_call(cx, &mut Parser::new(), c))
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::orders(t == Tier::Thorough));
    let seeds = if deep { 16384 } else { 256 };
    v.push(Space::new(
        "seeds",
        format!("{} files, among them every kind of ambiguous identifier, times {seeds} hash seeds (counter witness_*: every one of four object spaces was visited first under some seed)", SCENES.len()),
        move |ch, cx| {
            let sc = ch.pick("file", &SCENES);
            let seed = ch.choose("seed", seeds) as u64;
            cx.mix(&sc.bytes);
            cx.mix(&seed.to_le_bytes());
            if cx.verbose {
                eprintln!("file: {}", sc.name);
            }
            let a = parse_seeded(cx, 0, &sc.bytes, NAME)?;
            let b = parse_seeded(cx, seed + 1, &sc.bytes, NAME)?;
            if let Some(e) = &sc.exp {
                judge(cx, e, &b)?;
            }
            cx.outcome = got_hash(&b);
            agree(&a, &b, &format!("{} under hash seed {}", sc.name, seed + 1))
        },
    ));
    v.push(super::c03::near_space("near-identifiers", |cx, s, b| parse_seeded(cx, s, b, NAME), if deep { 64 } else { 2 }));
    v.push(Space::new(
        "seed-witness",
        format!("{seeds} seeds: which of four differently damaged spaces the library meets first"),
        move |ch, cx| {
            static W: LazyLock<Vec<u8>> = LazyLock::new(witness);
            let seed = ch.choose("seed", seeds) as u64;
            cx.mix(&seed.to_le_bytes());
            let r = parse_seeded(cx, seed + 1, &W, NAME)?;
            match &r {
                Ok(_) => return bad("accepted", "four damaged pages were accepted"),
                Err(e) => {
                    // never a matter of the verdict: only a measure of what the seeds vary
                    let k = match e {
                        e if e.contains("group") => "witness_group",
                        e if e.contains("property") => "witness_property",
                        e if e.contains("role") => "witness_role",
                        _ => "witness_other",
                    };
                    cx.count(k, 1);
                    cx.outcome = fnv(0, k.as_bytes());
                }
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "corpus-seeds",
        "every file of the malformed-input corpus and every sample file of the repository times 16 (thorough: 64) hash seeds",
        move |ch, cx| {
            static FILES: LazyLock<Vec<Vec<u8>>> = LazyLock::new(|| {
                let mut v: Vec<Vec<u8>> = c01::REAL.iter().map(|x| x.1.clone()).collect();
                v.extend(c01::CORPUS.iter().map(|x| x.bytes.clone()));
                v
            });
            let b = ch.pick("file", &FILES);
            let seed = ch.choose("seed", if deep { 64 } else { 16 }) as u64;
            cx.mix(b);
            cx.mix(&seed.to_le_bytes());
            let x = parse_seeded(cx, 0, b, NAME)?;
            let y = parse_seeded(cx, seed + 1, b, NAME)?;
            cx.outcome = got_hash(&y);
            agree(&x, &y, "under another hash seed")
        },
    ));
    // ------------------------------------------------------------ stored order
    v.push(Space::new(
        "element-order",
        "all 40320 orders of the 8 data elements of a section with one page, linked without cell manifests",
        move |ch, cx| {
            static P: LazyLock<(Package, XR<T>)> = LazyLock::new(|| {
                let ir = small();
                let mut pk = ir.build(&BuildOpts::default());
                // mappings name the revision manifests directly
                let cm: Vec<(Ex, Ex)> = vec![(eid(3), Ex::new([0x13; 16], 1)), (eid(1000), Ex::new(GREV, 1000)), (eid(2000), Ex::new(GREV, 2000))];
                for s in index(&mut pk) {
                    if let SI::Cell { id, .. } = s {
                        *id = cm.iter().find(|x| x.0 == *id).unwrap().1;
                    }
                }
                pk.elems.retain(|e| !cm.iter().any(|x| x.0 == e.id));
                assert_eq!(pk.elems.len(), 8);
                (pk, expect_section(&ir, NAME))
            });
            let o = ch.perm("element", 8);
            let mut pk = P.0.clone();
            pk.elems = o.iter().map(|i| P.0.elems[*i].clone()).collect();
            check_bytes(cx, &pk.bytes(), &P.1)
        },
    ));
    v.push(Space::new(
        "mapping-order",
        "all orders of the 7 storage index entries and of the 2 manifest roots of that section",
        move |ch, cx| {
            static P: LazyLock<(Package, XR<T>)> = LazyLock::new(|| {
                let ir = small();
                (ir.build(&BuildOpts::default()), expect_section(&ir, NAME))
            });
            let mut pk = P.0.clone();
            let si = index(&mut pk);
            let old = si.clone();
            let o = ch.perm("entry", old.len());
            *si = o.iter().map(|i| old[*i].clone()).collect();
            if ch.flag("swap roots") {
                manifest(&mut pk).reverse();
            }
            check_bytes(cx, &pk.bytes(), &P.1)
        },
    ));
    v.push(Space::new(
        "moved-elements",
        "every data element of a file with every kind of content moved to every position, and every rotation, forwards and reversed",
        move |ch, cx| {
            static P: LazyLock<(Package, XR<T>)> = LazyLock::new(|| {
                let ir = rich::rich();
                (ir.build(&BuildOpts::default()), expect_section(&ir, NAME))
            });
            let mut pk = P.0.clone();
            let n = pk.elems.len();
            let i = ch.choose("element", n);
            let j = ch.choose("to", n);
            match ch.choose("how", 3) {
                0 => {
                    let e = pk.elems.remove(i);
                    pk.elems.insert(j, e);
                }
                1 => pk.elems.swap(i, j),
                _ => {
                    pk.elems.rotate_left(i);
                    pk.elems[..j].reverse();
                }
            }
            check_bytes(cx, &pk.bytes(), &P.1)
        },
    ));
    v.push(Space::new(
        "object-order",
        "all orders of the objects of a page (paragraph style, text, element, outline, page, manifest, metadata) in one group, in two groups or in one group each, the groups in stored order or reversed",
        move |ch, cx| {
            let mut ir = small();
            let exp = expect_section(&ir, NAME);
            let g = &mut ir.spaces[1].revs[0].groups;
            let old = g[0].objs.clone();
            let o = ch.perm("object", old.len());
            let objs: Vec<Obj> = o.iter().map(|i| old[*i].clone()).collect();
            let part = match ch.choose("groups", 3) {
                0 => vec![objs],
                1 => vec![objs[..3].to_vec(), objs[3..].to_vec()],
                _ => objs.into_iter().map(|o| vec![o]).collect(),
            };
            *g = part.into_iter().enumerate().map(|(i, objs)| GroupIR { id: eid(8000 + i as u32), objs }).collect();
            let mut pk = ir.build(&BuildOpts::default());
            if ch.flag("reversed elements") {
                pk.elems.reverse();
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "declaration-order",
        "all orders of the 8 declarations (type and data of a picture, its container and a text, and the file data) of one object group, and all orders of the roots and groups of its revision",
        move |ch, cx| {
            static P: LazyLock<(StoreIR, Package, XR<T>)> = LazyLock::new(|| {
                let mut b = B::new();
                let im = b.image(Some(vec![1, 2, 3]));
                let t = b.para("text");
                let o = b.wrap(&[im, t]);
                let mut ir = section1(b, &[o], None);
                let g = &mut ir.spaces[1].revs[0].groups;
                let all = g[0].objs.clone();
                let (mut x, y): (Vec<Obj>, Vec<Obj>) =
                    all.into_iter().partition(|o| matches!(o.jcid, jc::ImageNode | jc::PictureContainer | jc::RichTextNode));
                x.truncate(4);
                *g = vec![GroupIR { id: eid(8000), objs: x }, GroupIR { id: eid(8001), objs: y }];
                (ir.clone(), ir.build(&BuildOpts::default()), expect_section(&ir, NAME))
            });
            let mut pk = P.1.clone();
            if ch.flag("revision entries") {
                let e = pk.elems.iter_mut().find(|e| e.id == eid(2001)).unwrap();
                let Body::RevManifest { entries, .. } = &mut e.body else { unreachable!() };
                let old = entries.clone();
                let o = ch.perm("entry", old.len());
                *entries = o.iter().map(|i| old[*i].clone()).collect();
            } else {
                let e = pk.elems.iter_mut().find(|e| e.id == eid(8000)).unwrap();
                let Body::Group { decls, data, .. } = &mut e.body else { unreachable!() };
                let (d0, x0) = (decls.clone(), data.clone());
                let o = ch.perm("declaration", d0.len());
                *decls = o.iter().map(|i| d0[*i].clone()).collect();
                *data = o.iter().map(|i| x0[*i].clone()).collect();
            }
            check_bytes(cx, &pk.bytes(), &P.2)
        },
    ));
    v.push(Space::new(
        "property-order",
        "all orders of the properties of a text, an outline element, an outline, a page, its metadata and the section (up to 7 properties each)",
        move |ch, cx| {
            let mut ir = small();
            let exp = expect_section(&ir, NAME);
            let kinds = [jc::RichTextNode, jc::OutlineElementNode, jc::OutlineNode, jc::PageNode, jc::PageMetadata, jc::SectionNode, jc::PageSeriesNode];
            let k = *ch.pick("object", &kinds);
            let o = ir
                .spaces
                .iter_mut()
                .flat_map(|s| s.revs.iter_mut())
                .flat_map(|r| r.groups.iter_mut())
                .flat_map(|g| g.objs.iter_mut())
                .find(|o| o.jcid == k)
                .unwrap();
            let old = o.props.clone();
            assert!(old.len() <= 8);
            let p = ch.perm("property", old.len());
            o.props = p.iter().map(|i| old[*i].clone()).collect();
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &exp)
        },
    ));
    // ------------------------------------------------------------ directories
    v.push(Space::new(
        "directory-order",
        "4 notebooks with up to 6 entries in a group, among them groups with several tables of contents: all orders in which the directory can list them, two hash seeds",
        move |ch, cx| {
            static S: LazyLock<Vec<(&'static str, Fs, &'static str)>> = LazyLock::new(nb_scenes);
            let (name, fs, top) = ch.pick("notebook", &S);
            // with "." and ".." at most 8 entries; the first orders all positions
            let most = fs.nodes.keys().map(|k| fs.kids(k).len()).max().unwrap() + 2;
            let n: usize = (1..=most).product();
            let perm = ch.choose("order", n) as u64;
            let seed = ch.choose("seed", 2) as u64;
            mix_fs(cx, fs);
            cx.mix(&(perm * 2 + seed).to_le_bytes());
            let root = realise(cx, fs);
            let a = seeded(0, || sys::with_order(0, || parse_nb(cx, &root.join(top), fs.len())))?;
            let b = seeded(seed + 1, || sys::with_order(perm, || parse_nb(cx, &root.join(top), fs.len())))?;
            cx.outcome = got_hash(&b);
            agree(&a, &b, &format!("{name}: directory order {perm}"))
        },
    ));
    // ------------------------------------------------------------ histories
    let n = if deep { CALLS.len() } else { 11 };
    let depth = if deep { 4 } else { 3 };
    v.push(Space::new(
        "call-histories",
        format!("every sequence of 1..={depth} calls over {n} calls (good, damaged, too deep and missing inputs; buffers, files rewritten in between, notebooks) on one parser on one thread: each answer is that of a new parser, nothing is written, inputs are unchanged"),
        move |ch, cx| {
            let len = 1 + ch.choose("calls", depth);
            let mut parser = Parser::new();
            let seq: Vec<usize> = (0..len).map(|_| ch.choose("call", n)).collect();
            cx.mix(&seq.iter().map(|x| *x as u8).collect::<Vec<_>>());
            // only the last answer is new, the others end shorter sequences
            let last = fresh(cx, &CALLS[seq[len - 1]])?;
            let got = seeded(2, || {
                for i in &seq[..len - 1] {
                    let _ = do_call(cx, &mut parser, &CALLS[*i])?;
                }
                do_call(cx, &mut parser, &CALLS[seq[len - 1]])
            })?;
            cx.outcome = got_hash(&got);
            agree(&last, &got, &format!("after the calls {:?}", &seq[..len - 1]))
        },
    ));
    v.push(Space::new(
        "long-histories",
        "each of 18 calls repeated 1..=200 times on one parser, followed by each of them",
        move |ch, cx| {
            let a = ch.choose("repeated", CALLS.len());
            let b = ch.choose("then", CALLS.len());
            let times = *ch.pick("times", if deep { &[1, 2, 3, 5, 10, 20, 39, 40, 41, 64, 100, 127, 128, 129, 200][..] } else { &[2, 10, 41, 130][..] });
            cx.mix(&[a as u8, b as u8, times as u8]);
            let mut parser = Parser::new();
            let last = fresh(cx, &CALLS[b])?;
            let got = seeded(2, || {
                for _ in 0..times {
                    let _ = do_call(cx, &mut parser, &CALLS[a])?;
                }
                do_call(cx, &mut parser, &CALLS[b])
            })?;
            cx.outcome = got_hash(&got);
            agree(&last, &got, &format!("after {times} times call {a}"))
        },
    ));
    v.push(Space::new(
        "carried-over",
        format!("{} first inputs (every kind of content with every attribute, the same with one attribute of a wrong type at each of its objects, so that parsing ends there, every table of contents of the list) times {} second inputs (among them every kind of content without any optional attribute, and tables of contents without a colour or without entries), on one parser and thread, the first input once (thorough: or three times)", FIRST.len(), SECOND.len()),
        move |ch, cx| {
            let a = ch.choose("first", FIRST.len());
            let b = ch.choose("second", SECOND.len());
            let times = if deep { *ch.pick("times", &[1, 3]) } else { 1 };
            cx.mix(&[a as u8, b as u8, (a >> 8) as u8, times]);
            let (name, c, exp) = &SECOND[b];
            let last = fresh(cx, c)?;
            if let Some(e) = exp {
                judge(cx, e, &last)?;
            }
            let got = seeded(2, || {
                let mut parser = Parser::new();
                for _ in 0..times {
                    let _ = do_call(cx, &mut parser, &FIRST[a].1)?;
                }
                do_call(cx, &mut parser, c)
            })?;
            cx.outcome = got_hash(&got);
            agree(&last, &got, &format!("{name} after {}", FIRST[a].0))
        },
    ));
    // ------------------------------------------------------------ the same place
    v.push(Space::new(
        "same-place",
        format!("{} sections and {} tables of contents of one length each, which differ in one value (one bit of every stored number, of the first, middle or last byte of every stored string, list or file, the kind of file): each followed by the first and the first followed by each, {}in one buffer overwritten in place, one file overwritten in place, one file replaced by another, each with the same time of modification, as a section or below a notebook: always the answer to the present content", SAME.0.len(), SAME.1.len(), if deep { "and each followed by the 40 next ones, " } else { "" }),
        move |ch, cx| {
            let toc = ch.flag("table of contents");
            let list = if toc { &SAME.1 } else { &SAME.0 };
            let k = ch.choose("variant", list.len());
            let (a, b) = match ch.choose("with", if deep { 42 } else { 2 }) {
                0 => (0, k),
                1 => (k, 0),
                n => (k, (k + n - 1) % list.len()),
            };
            let how = 1 + toc as usize * 2 + ch.choose("how", if toc { 2 } else { 5 });
            cx.mix(&list[a].1);
            cx.mix(&list[b].1);
            cx.mix(&[how as u8]);
            let dir = cx.scratch_dir().join("same");
            std::fs::create_dir_all(&dir).unwrap();
            let top = dir.join("t.onetoc2");
            let nb = how >= 3;
            // how: 0 unused, 1 2 section files, 3 4 notebooks, 5 a buffer
            let file = if nb && toc { top.clone() } else { dir.join("x.one") };
            let now = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
            let put = |p: &Path, by: &[u8], replace: bool| {
                use std::io::Write;
                let q = if replace { dir.join("new") } else { p.to_path_buf() };
                let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&q).unwrap();
                f.write_all(by).unwrap();
                f.set_len(by.len() as u64).unwrap();
                f.set_modified(now).unwrap();
                drop(f);
                if replace {
                    std::fs::rename(&q, p).unwrap();
                }
            };
            let mut fs = Fs::default();
            fs.put("t.onetoc2", crate::fsm::toc(&["x.one"]));
            if nb {
                if !toc {
                    let Some(Nd::File(f)) = fs.nodes.get("t.onetoc2") else { unreachable!() };
                    put(&top, f.bytes(), true);
                } else {
                    let Nd::File(f) = crate::fsm::sec(0) else { unreachable!() };
                    put(&dir.join("x.one"), f.bytes(), true);
                    fs.put("x.one", crate::fsm::sec(0));
                }
            }
            let parser = Parser::new();
            let mut buf = list[a].1.clone();
            for (n, i) in [a, b, a].into_iter().enumerate() {
                let (ir, by) = &list[i];
                let len = 3 * by.len() + 4000;
                let exp = if ir.schema != list[0].0.schema {
                    Err(X::Err)
                } else if nb && how < 5 {
                    let at = if toc { "t.onetoc2" } else { "x.one" };
                    let (i, b) = (std::sync::Arc::new(ir.clone()), std::sync::Arc::new(by.clone()));
                    fs.put(at, Nd::File(if toc { F::Toc(i, b) } else { F::Section(i, b) }));
                    promise(&fs, "t.onetoc2").exp
                } else {
                    expect_section(ir, "x.one")
                };
                buf.copy_from_slice(by);
                if how != 5 {
                    put(&file, by, how % 2 == 0 || n == 0);
                }
                let got = guarded(cx, len, || {
                    match how {
                        5 => parser.parse_section_buffer(&buf, Path::new("x.one")).map(|s| obs::section(&s)),
                        1 | 2 => parser.parse_section(&file).map(|s| obs::section(&s)),
                        _ => parser.parse_notebook(&top).map(|s| obs::notebook(&s)),
                    }
                    .map_err(|e| e.to_string())
                })?;
                if got.is_ok() { cx.ok += 1 } else { cx.err += 1 }
                judge(cx, &exp, &got)?;
            }
            Ok(())
        },
    ));
    v.push(super::scale::space("C06", t));
    v
}
/// sections and tables of contents of the same length that differ in one value
static SAME: LazyLock<(Vec<(StoreIR, Vec<u8>)>, Vec<(StoreIR, Vec<u8>)>)> = LazyLock::new(|| {
    fn flips(v: &mut PV, at: usize) -> bool {
        match v {
            PV::U8(x) if at == 0 => *x ^= 1,
            PV::U16(x) if at == 0 => *x ^= 1,
            PV::U32(x) if at == 0 => *x ^= 1,
            PV::Bool(x) if at == 0 => *x = !*x,
            PV::Vec(x) if !x.is_empty() => {
                let n = x.len();
                let i = match at {
                    0 => 0,
                    1 if n > 2 => n / 2 & !1,
                    2 if n > 1 => n - 1,
                    _ => return false,
                };
                x[i] ^= 1;
            }
            _ => return false,
        }
        true
    }
    let all = |ir: StoreIR| {
        let by = |ir: &StoreIR| ir.build(&BuildOpts::default()).bytes();
        let base = by(&ir);
        let mut out = vec![(ir.clone(), base.clone())];
        let mut add = |x: StoreIR| {
            let b = by(&x);
            if b.len() == base.len() && b != base {
                out.push((x, b));
            }
        };
        let mut x = ir.clone();
        x.schema[15] ^= 1;
        add(x);
        for s in 0..ir.spaces.len() {
            for r in 0..ir.spaces[s].revs.len() {
                for g in 0..ir.spaces[s].revs[r].groups.len() {
                    for o in 0..ir.spaces[s].revs[r].groups[g].objs.len() {
                        for p in 0..ir.spaces[s].revs[r].groups[g].objs[o].props.len() {
                            for at in 0..3 {
                                let mut x = ir.clone();
                                if flips(&mut x.spaces[s].revs[r].groups[g].objs[o].props[p].v, at) {
                                    add(x);
                                }
                            }
                        }
                    }
                }
            }
        }
        for i in 0..ir.blobs.len() {
            for at in 0..3 {
                let mut x = ir.clone();
                let n = x.blobs[i].1.len();
                if n > 0 {
                    x.blobs[i].1[[0, n / 2, n - 1][at]] ^= 1;
                    add(x);
                }
            }
        }
        out
    };
    (all(crate::rich::rich()), all(toc_flat(&[("x.one", 2), ("y.one", 1), ("X.one", 3)])))
});
type Named = Vec<(String, CallOp, Option<XR<T>>)>;
/// the same objects without any attribute that can be left out
fn bare(mut ir: StoreIR, expect: impl Fn(&StoreIR) -> XR<T>) -> StoreIR {
    let isref = |v: &PV| matches!(v, PV::Oid(_) | PV::Oids(_) | PV::Osid(_) | PV::Osids(_) | PV::Ctx(_) | PV::Ctxs(_));
    for s in 0..ir.spaces.len() {
        for g in 0..ir.spaces[s].revs[0].groups.len() {
            for o in 0..ir.spaces[s].revs[0].groups[g].objs.len() {
                let mut i = 0;
                loop {
                    let props = &mut ir.spaces[s].revs[0].groups[g].objs[o].props;
                    if i == props.len() {
                        break;
                    }
                    if isref(&props[i].v) || matches!(&props[i].v, PV::Vals(_, x) if x.iter().flatten().any(|y| isref(&y.v))) {
                        i += 1;
                        continue;
                    }
                    let old = props.remove(i);
                    if expect(&ir).is_err() {
                        ir.spaces[s].revs[0].groups[g].objs[o].props.insert(i, old);
                        i += 1;
                    }
                }
            }
        }
    }
    ir
}
/// tables of contents
static TOCS: LazyLock<Named> = LazyLock::new(|| {
    let d = BuildOpts::default();
    let mut v: Named = vec![];
    let rt = rich::rich_toc();
    let no_colour = bare(rt.clone(), |x| expect_toc(x).map(|_| T::Null));
    let put = |v: &mut Named, n: &str, ir: &StoreIR| v.push((n.into(), CallOp::Toc(ir.build(&d).bytes()), None));
    put(&mut v, "a table of contents", &rt);
    put(&mut v, "the same without optional attributes", &no_colour);
    for colour in [None, Some(0x00112233u32), Some(0x80ffffff)] {
        for n in [0usize, 1, 3] {
            let names: Vec<String> = (0..n).map(|i| format!("gone{i}.one")).collect();
            let mut ir = toc_flat(&names.iter().map(|n| (n.as_str(), 1)).collect::<Vec<_>>());
            let root = ir.spaces[0].revs[0].groups[0].objs.last_mut().unwrap();
            if let Some(c) = colour {
                root.props.push(pr(p::SectionColor, PV::U32(c)));
            }
            if n == 0 {
                root.props.retain(|x| x.id != p::TocChildren & 0x3ffffff);
            }
            put(&mut v, &format!("a table with {n} entries and colour {colour:?}"), &ir);
        }
    }
    v
});
static SECOND: LazyLock<Named> = LazyLock::new(|| {
    let d = BuildOpts::default();
    let mut v: Named = vec![];
    let r = rich::rich();
    let b = bare(r.clone(), |x| expect_section(x, NAME));
    for (n, ir) in [("every kind of content", r), ("every kind of content without optional attributes", b), ("every kind of content with other values", super::c21::others()), ("a small section", small())] {
        v.push((n.into(), CallOp::Buf(ir.build(&d).bytes(), NAME), Some(expect_section(&ir, NAME))));
    }
    v.push(("nested content".into(), CallOp::Buf(nested(38), NAME), None));
    v.extend(TOCS.iter().cloned());
    v
});
static FIRST: LazyLock<Named> = LazyLock::new(|| {
    let d = BuildOpts::default();
    let mut v = SECOND.clone();
    let r = rich::rich();
    for s in 0..r.spaces.len() {
        for g in 0..r.spaces[s].revs[0].groups.len() {
            for o in 0..r.spaces[s].revs[0].groups[g].objs.len() {
                let mut ir = r.clone();
                let obj = &mut ir.spaces[s].revs[0].groups[g].objs[o];
                let Some(x) = obj.props.last_mut() else { continue };
                x.v = PV::U64(1);
                let name = format!("an error in object {o} of space {s}");
                v.push((name, CallOp::Buf(ir.build(&d).bytes(), NAME), None));
            }
        }
    }
    v
});
pub fn small() -> StoreIR {
    let mut b = B::new();
    let t = b.para("text");
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}
