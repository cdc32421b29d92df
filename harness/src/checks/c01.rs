//! Fault enumeration on complete files: no crash, hang or runaway memory.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;
use std::sync::LazyLock;

pub struct Corpus {
    pub name: &'static str,
    pub toc: bool,
    pub pkg: Package,
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
}
fn corpus(name: &'static str, toc: bool, ir: StoreIR, layout: Layout, meta: bool) -> Corpus {
    let bo = BuildOpts { layout, meta, marks: true, ..Default::default() };
    let mut pkg = ir.build(&bo);
    if meta {
        pkg.elems.push(Elem::new(
            Ex::new([0x78; 16], 4),
            Body::Fragment { id: eid(1), size: 4, off: 0, len: 4, data: vec![1, 2, 3, 4] },
        ));
    }
    let (bytes, marks) = pkg.encode(&Opts { marks: true, ..Default::default() });
    Corpus { name, toc, pkg, bytes, marks }
}
pub static CORPUS: LazyLock<Vec<Corpus>> = LazyLock::new(|| {
    vec![
        corpus("section", false, rich(), Layout::Package, true),
        corpus("section-revfull", false, small(), Layout::RevFull { gap: 6 }, false),
        corpus("toc", true, rich_toc(), Layout::Package, false),
    ]
});
fn small() -> StoreIR {
    let mut b = B::new();
    let t = b.para("x");
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}
/// real files of the repository's own sample set
pub static REAL: LazyLock<Vec<(String, Vec<u8>)>> = LazyLock::new(|| {
    let mut v = vec![];
    fn walk(d: &std::path::Path, v: &mut Vec<(String, Vec<u8>)>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, v)
                } else if p.extension().is_some_and(|x| x == "one" || x == "onetoc2") {
                    if let Ok(b) = std::fs::read(&p) {
                        v.push((p.display().to_string(), b));
                    }
                }
            }
        }
    }
    walk(std::path::Path::new("/repo/tests/samples"), &mut v);
    v.sort();
    v
});

/// Run one input; any answer is fine, misbehaviour is not.
pub fn run(cx: &mut Cx, toc: bool, bytes: &[u8]) -> R {
    cx.mix(bytes);
    let got = if toc { parse_toc_bytes(cx, bytes)? } else { parse_buf(cx, bytes, NAME)? };
    cx.outcome = got_hash(&got);
    Ok(())
}

pub fn kinds() -> Vec<PV> {
    let big = |n: usize| vec![0xffu8; n];
    let mut v = vec![
        PV::Empty,
        PV::Bool(false),
        PV::Bool(true),
        PV::U8(0),
        PV::U8(0xff),
        PV::U16(0),
        PV::U16(0xffff),
        PV::U16(0xd800),
        PV::U32(0),
        PV::U32(u32::MAX),
        PV::U32(0x7fff_ffff),
        PV::U32(0x7fc0_0000),
        PV::U64(u64::MAX),
        PV::Vec(vec![]),
    ];
    for n in [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64] {
        v.push(PV::Vec(vec![0; n]));
        v.push(PV::Vec(big(n)));
        v.push(PV::Vec((1..=n as u8).collect()));
    }
    for f in [0x01u8, 0x80, 0x02] {
        v.push(PV::Vec(vec![f; 12]));
    }
    v.push(PV::Vec(vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01]));
    v.push(PV::Vec(vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]));
    v.push(PV::Vec(vec![0x00, 0xd8, 0x41, 0x00]));
    let x = xo(1);
    v.extend([
        PV::Oid(Ex::NIL),
        PV::Oid(xo(777_777)),
        PV::Oid(x),
        PV::Oids(vec![]),
        PV::Oids(vec![x, xo(2), xo(777_777)]),
        PV::Osid(cell(2)),
        PV::Osids(vec![]),
        PV::Osids(vec![cell(2), cell(99)]),
        PV::Ctx(ctx0()),
        PV::Ctxs(vec![ctx0(), ctx0()]),
        PV::Vals(VALS, vec![]),
        PV::Vals(VALS, vec![vec![], vec![pr(p::NoteTagDefinitionOid, PV::Oid(x))], vec![]]),
        PV::Set(vec![]),
        PV::Set(vec![pr(0x99, PV::Oids(vec![x])), pr(0x98, PV::U8(1))]),
    ]);
    v
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new("truncation", "3 complete files cut at every byte", |ch, cx| {
        let c = ch.pick("file", &CORPUS);
        let n = ch.choose("length", c.bytes.len() + 1);
        run(cx, c.toc, &c.bytes[..n])
    }));
    v.push(Space::new(
        "byte-faults",
        "3 complete files, every byte replaced by each of 18 values or single-bit changes (thorough: all 256)",
        move |ch, cx| {
            let c = ch.pick("file", &CORPUS);
            let i = ch.choose("offset", c.bytes.len());
            let mut b = c.bytes.clone();
            if th {
                b[i] = ch.choose("value", 256) as u8;
            } else {
                let k = ch.choose("value", 18);
                b[i] = match k {
                    0..=7 => b[i] ^ 1 << k,
                    k => [0u8, 1, 2, 3, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff][k - 8],
                };
            }
            run(cx, c.toc, &b)
        },
    ));
    v.push(Space::new("delete-duplicate", "3 complete files, every byte deleted or doubled", |ch, cx| {
        let c = ch.pick("file", &CORPUS);
        let i = ch.choose("offset", c.bytes.len());
        let mut b = c.bytes.clone();
        if ch.flag("double") {
            b.insert(i, b[i])
        } else {
            b.remove(i);
        }
        run(cx, c.toc, &b)
    }));
    v.push(Space::new(
        "count-fields",
        "every compact-integer field of 3 complete files set to each of 20 extreme values, surrounding lengths consistent",
        move |ch, cx| {
            let c = ch.pick("file", &CORPUS);
            let n = c.marks.iter().filter(|m| m.k == K::Compact).count();
            let k = ch.choose("field", n);
            let vals = [
                0u64, 1, 2, 3, 127, 128, 255, 256, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000,
                1 << 40, (1 << 62) - 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX,
            ];
            let o = Opts { ovc: Some((k, super::c03::enc_cu(*ch.pick("value", &vals), 9))), ..Default::default() };
            run(cx, c.toc, &c.pkg.encode(&o).0)
        },
    ));
    v.push(Space::new(
        "stream-words",
        "every 2- or 4-byte count, header and value inside the property streams set to each of 17 extreme values",
        move |ch, cx| {
            let c = ch.pick("file", &CORPUS);
            let ms: Vec<&Mark> = c
                .marks
                .iter()
                .filter(|m| matches!(m.k, K::PropHdr | K::PropCnt | K::PropVal | K::PropId | K::CompactId | K::Version) || m.tag == "transaction_log")
                .filter(|m| m.len >= 2)
                .collect();
            let m = ms[ch.choose("field", ms.len())];
            let vals = [
                0u64, 1, 2, 0xff, 0x100, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x00ff_ffff, 0x0100_0000, 0x4000_0001,
                0x8000_0001, 0xc000_0000, 0x3fff_ffff, u64::MAX, 1 << 63,
            ];
            let val = *ch.pick("value", &vals);
            let at = ch.choose("half", if m.len > 8 { 2 } else { 1 }) * 8;
            let mut b = c.bytes.clone();
            let l = (m.len - at).min(8);
            b[m.off + at..m.off + at + l].copy_from_slice(&val.to_le_bytes()[..l]);
            run(cx, c.toc, &b)
        },
    ));
    if th {
        v.push(Space::new(
            "field-fault-pairs",
            "every pair of compact-integer, property-stream or header fields of a small file, each set to one of 4 extremes",
            |ch, cx| {
                let c = &CORPUS[2];
                let ms: Vec<&Mark> = c
                    .marks
                    .iter()
                    .filter(|m| matches!(m.k, K::PropHdr | K::PropCnt | K::PropId | K::CompactId | K::Compact | K::Hdr | K::End))
                    .collect();
                let i = ch.choose("field1", ms.len());
                let j = ch.choose("field2", ms.len());
                if j <= i {
                    return Ok(());
                }
                let mut b = c.bytes.clone();
                for (k, l) in [(i, "value1"), (j, "value2")] {
                    let val: u64 = *ch.pick(l, &[0, 1, 0x8000_0000_8000_8080, u64::MAX]);
                    let m = ms[k];
                    let n = m.len.min(8);
                    b[m.off..m.off + n].copy_from_slice(&val.to_le_bytes()[8 - n..]);
                }
                run(cx, c.toc, &b)
            },
        ));
    }
    v.push(Space::new(
        "property-faults",
        "every property of every object of the rich file: removed, or replaced by each of 80 values of every storage kind",
        move |ch, cx| {
            let which = ch.choose("file", 2);
            let mut ir = if which == 0 { RICH.clone() } else { RTOC.clone() };
            let n: Vec<(usize, usize, usize, usize, usize)> = prop_paths(&ir);
            let (s, r, g, o, k) = n[ch.choose("property", n.len())];
            let ks = kinds();
            let val = ch.choose("value", ks.len() + 1);
            let ob = &mut ir.spaces[s].revs[r].groups[g].objs[o];
            if val == ks.len() {
                ob.props.remove(k);
            } else {
                ob.props[k].v = ks[val].clone();
            }
            run(cx, which == 1, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new(
        "nested-property-faults",
        "every property inside every nested property list of the rich file: removed, or replaced by each of 80 values",
        move |ch, cx| {
            let mut ir = RICH.clone();
            let mut paths = vec![];
            for (s, r, g, o, k) in prop_paths(&ir) {
                if let PV::Vals(_, sets) = &ir.spaces[s].revs[r].groups[g].objs[o].props[k].v {
                    for (i, x) in sets.iter().enumerate() {
                        for j in 0..x.len() {
                            paths.push((s, r, g, o, k, i, j));
                        }
                    }
                }
            }
            let (s, r, g, o, k, i, j) = paths[ch.choose("property", paths.len())];
            let ks = kinds();
            let val = ch.choose("value", ks.len() + 1);
            if let PV::Vals(_, sets) = &mut ir.spaces[s].revs[r].groups[g].objs[o].props[k].v {
                if val == ks.len() {
                    sets[i].remove(j);
                } else {
                    sets[i][j].v = ks[val].clone();
                }
            }
            run(cx, false, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new(
        "object-faults",
        "every object of the rich file: removed, emptied, retyped as each known type, or its blob dropped/misdirected",
        move |ch, cx| {
            let which = ch.choose("file", 2);
            let mut ir = if which == 0 { RICH.clone() } else { RTOC.clone() };
            let mut paths = vec![];
            for (s, sp) in ir.spaces.iter().enumerate() {
                for (r, rv) in sp.revs.iter().enumerate() {
                    for (g, gr) in rv.groups.iter().enumerate() {
                        for o in 0..gr.objs.len() {
                            paths.push((s, r, g, o));
                        }
                    }
                }
            }
            let (s, r, g, o) = paths[ch.choose("object", paths.len())];
            let k = ch.choose("fault", 5 + jc::ALL.len());
            let gr = &mut ir.spaces[s].revs[r].groups[g];
            match k {
                0 => {
                    gr.objs.remove(o);
                }
                1 => gr.objs[o].props.clear(),
                2 => gr.objs[o].jcid = 0,
                3 => gr.objs[o].blob = Some(Ex::new([1; 16], 1)),
                4 => gr.objs[o].blob = None,
                k => gr.objs[o].jcid = jc::ALL[k - 5],
            }
            run(cx, which == 1, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new(
        "reference-retarget",
        "every reference of the rich file redirected to every object of its space",
        move |ch, cx| {
            let mut ir = RICH.clone();
            let ids: Vec<Ex> = ir.spaces[1].revs.iter().flat_map(|r| r.groups[0].objs.iter().map(|o| o.id)).collect();
            let refs: Vec<_> = prop_paths(&ir)
                .into_iter()
                .filter(|(s, r, g, o, k)| {
                    matches!(&ir.spaces[*s].revs[*r].groups[*g].objs[*o].props[*k].v, PV::Oid(_) | PV::Oids(_))
                })
                .collect();
            let (s, r, g, o, k) = refs[ch.choose("reference", refs.len())];
            let to = *ch.pick("target", &ids);
            match &mut ir.spaces[s].revs[r].groups[g].objs[o].props[k].v {
                PV::Oid(e) => *e = to,
                PV::Oids(v) if !v.is_empty() => {
                    let i = ch.choose("index", v.len());
                    v[i] = to
                }
                _ => return Ok(()),
            }
            run(cx, false, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new(
        "short-values",
        "each length-carrying binary property of the format x every byte string of length 0..=2 (65793 strings)",
        move |ch, cx| {
            let targets: [(u32, u32); 11] = [
                (jc::InkStrokeNode, p::InkPath),
                (jc::StrokePropertiesNode, p::InkDimensions),
                (jc::InkDataNode, p::InkBoundingBox),
                (jc::OutlineNode, p::RgOutlineIndentDistance),
                (jc::NumberListNode, p::NumberListFormat),
                (jc::TableNode, p::TableColumnWidths),
                (jc::TableNode, p::TableColumnsLocked),
                (jc::RichTextNode, p::TextRunIndex),
                (jc::RichTextNode, p::RichEditTextUnicode),
                (jc::RichTextNode, p::TextExtendedAscii),
                (jc::PageMetadata, p::NotebookManagementEntityGuid),
            ];
            let (jcid, prop) = *ch.pick("property", &targets);
            let len = ch.choose("length", 3);
            let mut b = vec![];
            for _ in 0..len {
                // the second byte of pure numbers is covered coarsely in the quick tier
                let n = if th || b.is_empty() { 256 } else { 17 };
                let x = ch.choose("byte", n);
                b.push(if n == 256 { x as u8 } else { (x * 16).min(255) as u8 });
            }
            let mut ir = RICH.clone();
            for s in &mut ir.spaces {
                for r in &mut s.revs {
                    for g in &mut r.groups {
                        for o in &mut g.objs {
                            if o.jcid == jcid && o.props.iter().any(|q| q.id == prop & 0x3ff_ffff) {
                                o.set(prop, PV::Vec(b.clone()));
                            }
                        }
                    }
                }
            }
            run(cx, false, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new(
        "indent-and-ink-shapes",
        "indent count byte 0..=255 x data length 0..=40; ink dimension count 0..=4 x value count 0..=9 x stated count 0..=12",
        move |ch, cx| {
            let mut ir = RICH.clone();
            if ch.flag("ink") {
                let (d, n, c) = (ch.choose("dims", 5), ch.choose("values", 10), ch.choose("count", 13));
                let gs: Vec<G> = [DIM_X(), [3; 16], DIM_Y(), DIM_X()][..d.min(4)].to_vec();
                let mut v = vec![];
                isf_uint((c as u64) << 1, &mut v);
                for i in 0..n {
                    isf_uint(i as u64 * 77, &mut v);
                }
                for o in ir.spaces[1].revs.iter_mut().flat_map(|r| r.groups[0].objs.iter_mut()) {
                    if o.jcid == jc::InkStrokeNode {
                        o.set(p::InkPath, PV::Vec(v.clone()));
                    }
                    if o.jcid == jc::StrokePropertiesNode {
                        o.set(p::InkDimensions, PV::Vec(dims(&gs)));
                    }
                }
            } else {
                let (c, n) = (ch.choose("count", 256), ch.choose("length", 41));
                let mut v = vec![0u8; n];
                if n > 0 {
                    v[0] = c as u8;
                }
                for o in ir.spaces[1].revs.iter_mut().flat_map(|r| r.groups[0].objs.iter_mut()) {
                    if o.jcid == jc::OutlineNode || o.jcid == jc::TableCellNode {
                        o.set(p::RgOutlineIndentDistance, PV::Vec(v.clone()));
                    }
                }
            }
            run(cx, false, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    v.push(Space::new("tiny-inputs", "every file of at most 2 bytes; every header prefix padded with 5 fill bytes", |ch, cx| {
        let toc = ch.flag("toc");
        let m = ch.choose("kind", 4);
        let b = match m {
            0 => vec![],
            1 => vec![ch.choose("b0", 256) as u8],
            2 => vec![ch.choose("b0", 256) as u8, ch.choose("b1", 256) as u8],
            _ => {
                let c = ch.pick("file", &CORPUS);
                let n = ch.choose("keep", 200.min(c.bytes.len()));
                let f = *ch.pick("fill", &[0u8, 1, 0x80, 0xaa, 0xff]);
                let mut b = c.bytes[..n].to_vec();
                b.resize(n + 64, f);
                b
            }
        };
        run(cx, toc, &b)
    }));
    v.push(Space::new("real-truncation", "every sample file of the repository cut at 2000 (thorough: 40000) evenly spaced lengths, or at every length", move |ch, cx| {
        let c = ch.choose("file", REAL.len().max(1));
        let Some((n, b)) = REAL.get(c) else { return Ok(()) };
        let q = (b.len() / if th { 40_000 } else { 2_000 }).max(1);
        let l = ch.choose("length", b.len() / q + 1) * q;
        run(cx, n.ends_with("onetoc2"), &b[..l.min(b.len())])
    }));
    v.push(Space::new(
        "real-byte-faults",
        "every sample file of the repository: each of 1000 (thorough: 16000) evenly spaced bytes, or every byte, set to 0, 0xff, 0x7f, 0x80 or changed by 1",
        move |ch, cx| {
            let c = ch.choose("file", REAL.len().max(1));
            let Some((n, b)) = REAL.get(c) else { return Ok(()) };
            // an odd step visits every alignment
            let q = (b.len() / if th { 16_000 } else { 1_000 }) | 1;
            let i = (ch.choose("offset", b.len() / q) * q).min(b.len() - 1);
            let k = ch.choose("value", 5);
            let mut b = b.clone();
            b[i] = [0, 0xff, 0x7f, 0x80, b[i] ^ 1][k];
            run(cx, n.ends_with("onetoc2"), &b)
        },
    ));
    v
}
pub static RICH: LazyLock<StoreIR> = LazyLock::new(rich);
pub static RTOC: LazyLock<StoreIR> = LazyLock::new(rich_toc);

pub fn prop_paths(ir: &StoreIR) -> Vec<(usize, usize, usize, usize, usize)> {
    let mut v = vec![];
    for (s, sp) in ir.spaces.iter().enumerate() {
        for (r, rv) in sp.revs.iter().enumerate() {
            for (g, gr) in rv.groups.iter().enumerate() {
                for (o, ob) in gr.objs.iter().enumerate() {
                    for k in 0..ob.props.len() {
                        v.push((s, r, g, o, k));
                    }
                }
            }
        }
    }
    v
}
