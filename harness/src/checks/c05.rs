//! Revision histories: the newest revision of every object and root wins.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::store::*;
use crate::tree::*;
use crate::util::*;

const T1: u32 = 11;
const T2: u32 = 12;
const ST: u32 = 13;
const EL: u32 = 14;
const OU: u32 = 15;
const PA: u32 = 20; // page of manifest A
const PB: u32 = 21;
const MA: u32 = 22;
const MB: u32 = 23;
const DA: u32 = 24; // page metadata A
const DB: u32 = 25;

fn obj(n: u32, jcid: u32, props: Vec<Prop>) -> Obj {
    Obj { id: xo(n), jcid, props, blob: None }
}
/// object `n` as written by revision `r`
fn version(n: u32, r: usize) -> Obj {
    match n {
        T1 | T2 => obj(
            n,
            jc::RichTextNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(7)),
                pr(p::ParagraphStyle, PV::Oid(xo(ST))),
                prs(p::RichEditTextUnicode, &format!("text {n} of revision {r}")),
            ],
        ),
        ST => obj(n, jc::ParagraphStyleObject, vec![pr(p::FontSize, PV::U16(20 + r as u16))]),
        EL => {
            // alternate contents so that inherited and rewritten references mix
            let c = match r % 3 {
                0 => vec![xo(T1), xo(T2)],
                1 => vec![xo(T2)],
                _ => vec![xo(T2), xo(T1), xo(T1)],
            };
            obj(
                n,
                jc::OutlineElementNode,
                vec![
                    pr(p::CreationTimeStamp, PV::U32(1)),
                    pr(p::LastModifiedTime, PV::U32(2)),
                    pr(p::OutlineElementChildLevel, PV::U8(r as u8 + 1)),
                    pr(p::AuthorOriginal, PV::Oid(xo(900_000))),
                    pr(p::AuthorMostRecent, PV::Oid(xo(900_000))),
                    pr(p::ContentChildNodes, PV::Oids(c)),
                ],
            )
        }
        OU => obj(
            n,
            jc::OutlineNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(2)),
                pr(p::OutlineElementChildLevel, PV::U8(1)),
                pr(p::RgOutlineIndentDistance, PV::Vec(indent_bytes(&[r as f32]))),
                pr(p::ElementChildNodes, PV::Oids(vec![xo(EL)])),
            ],
        ),
        PA | PB => obj(
            n,
            jc::PageNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(1)),
                prs(p::Author, &format!("page {n} of revision {r}")),
                pr(p::ElementChildNodes, PV::Oids(vec![xo(OU)])),
            ],
        ),
        MA => obj(n, jc::PageManifestNode, vec![pr(p::ContentChildNodes, PV::Oids(vec![xo(PA)]))]),
        MB => obj(n, jc::PageManifestNode, vec![pr(p::ContentChildNodes, PV::Oids(vec![xo(PB)]))]),
        _ => obj(
            n,
            jc::PageMetadata,
            vec![
                pr(p::NotebookManagementEntityGuid, gv()),
                prs(p::CachedTitleString, "t"),
                pr(p::TopologyCreationTimeStamp, PV::U64(1)),
                pr(p::PageLevel, PV::U32(n * 10 + r as u32)),
            ],
        ),
    }
}
const ALL: [u32; 11] = [T1, T2, ST, EL, OU, PA, PB, MA, MB, DA, DB];

/// A section whose page cell has the given revisions, newest first.
fn section_of(revs: Vec<RevIR>) -> StoreIR {
    StoreIR {
        schema: C.section,
        spaces: vec![section_root(&[vec![cell(2)]]), SpaceIR { cell: cell(2), manifest: eid(2000), revs }],
        blobs: vec![],
    }
}
fn rev(i: usize, n: usize, objs: Vec<Obj>, roots: Vec<(u32, Ex)>, split: usize) -> RevIR {
    // split 0: one group; 1: two groups; 2: one group per object; 3: an empty group first
    let gid = |k: usize| eid(7000 + (i * 40 + k) as u32);
    let groups = match split {
        0 => vec![GroupIR { id: gid(0), objs }],
        1 => {
            let k = objs.len() / 2;
            vec![GroupIR { id: gid(0), objs: objs[k..].to_vec() }, GroupIR { id: gid(1), objs: objs[..k].to_vec() }]
        }
        2 => objs.into_iter().enumerate().map(|(k, o)| GroupIR { id: gid(k), objs: vec![o] }).collect(),
        _ => vec![GroupIR { id: gid(0), objs: vec![] }, GroupIR { id: gid(1), objs }],
    };
    RevIR {
        rev: Ex::new(GREV, 5000 + i as u32),
        manifest: eid(5000 + i as u32),
        base: if i + 1 < n { Ex::new(GREV, 5001 + i as u32) } else { Ex::NIL },
        groups,
        roots,
    }
}
fn full_roots(b: bool) -> Vec<(u32, Ex)> {
    if b { vec![(1, xo(MB)), (2, xo(DB))] } else { vec![(1, xo(MA)), (2, xo(DA))] }
}

/// how a manifest is reached from the identifier that names it
#[derive(Clone, Copy, PartialEq)]
enum Link {
    Mapping,
    Direct,
    /// the cell mapping names the revision itself, there is no cell manifest
    CellToRevision,
    /// ... or directly the manifest
    CellToManifest,
    /// the cell mapping names nothing, but shares its serial number with the revision mapping
    Serial,
}
/// Change how the newest revision (k = 0) or the base links of cell 2 are stored.
fn relink(pk: &mut Package, newest: &RevIR, cell_link: Link, base_direct: &[bool], revs: &[RevIR]) {
    let direct: Vec<&RevIR> = revs
        .iter()
        .enumerate()
        .filter(|(i, _)| if *i == 0 { matches!(cell_link, Link::Direct | Link::CellToManifest) } else { base_direct[*i - 1] })
        .map(|x| x.1)
        .collect();
    for e in &mut pk.elems {
        match &mut e.body {
            Body::StorageIndex(v) => {
                v.retain(|s| !matches!(s, SI::Rev { id, .. } if direct.iter().any(|r| r.rev == *id)));
                for s in v {
                    match s {
                        SI::Cell { cell: c, id, serial } if *c == cell(2) => match cell_link {
                            Link::CellToRevision => *id = newest.rev,
                            Link::CellToManifest => *id = newest.manifest,
                            Link::Serial => {
                                *id = eid(424_242);
                                *serial = Some((GSER, 4242));
                            }
                            _ => {}
                        },
                        SI::Rev { id, serial, .. } if cell_link == Link::Serial && *id == newest.rev => {
                            *serial = Some((GSER, 4242));
                        }
                        _ => {}
                    }
                }
            }
            Body::CellManifest(x) if *x == newest.rev && cell_link == Link::Direct => *x = newest.manifest,
            Body::RevManifest { base, .. } => {
                if let Some(r) = direct.iter().find(|r| r.rev == *base) {
                    *base = r.manifest;
                }
            }
            _ => {}
        }
    }
    if matches!(cell_link, Link::CellToRevision | Link::CellToManifest | Link::Serial) {
        pk.elems.retain(|e| e.id != eid(2000));
    }
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::histories(t == Tier::Thorough));
    // --- which objects and roots each revision writes
    let maxn = if deep { 5 } else { 4 };
    v.push(Space::new(
        "histories",
        format!("1..={maxn} revisions; every newer revision rewrites any subset of 4 objects (two texts, their element, its style) and declares any of 3 content roots and 2 metadata roots"),
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", maxn);
            let mut revs = vec![];
            for i in 0..n {
                let r = n - 1 - i; // age: 0 = oldest
                let (objs, roots) = if i + 1 == n {
                    (ALL.iter().map(|o| version(*o, r)).collect(), full_roots(false))
                } else {
                    let m = ch.choose("rewritten", 16);
                    let objs: Vec<Obj> =
                        [T1, T2, EL, ST].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, o)| version(*o, r)).collect();
                    let mut roots = vec![];
                    match ch.choose("content root", 3) {
                        0 => {}
                        1 => roots.push((1, xo(MA))),
                        _ => roots.push((1, xo(MB))),
                    }
                    if i == 0 || deep && n < 4 {
                        if ch.flag("metadata root") {
                            roots.push((2, xo(DB)));
                        }
                    } else if m & 1 == 1 {
                        roots.push((2, xo(DB)));
                    }
                    (objs, roots)
                };
                revs.push(rev(i, n, objs, roots, 0));
            }
            check1(cx, &section_of(revs))
        },
    ));
    // --- objects only present in some revisions, groups split in every way
    v.push(Space::new(
        "placement",
        "3 revisions; every placement of 5 objects (text, style, element, page, metadata) in any subset of the revisions; each revision's objects in one group, two groups, a group per object or behind an empty group",
        move |ch, cx| {
            let split = ch.choose("split", 4);
            let objs = [T1, ST, EL, PA, DA];
            let mut m = vec![];
            for _ in objs {
                m.push(ch.choose("revisions holding it", 8));
            }
            let mut revs = vec![];
            for i in 0..3 {
                let mut v: Vec<Obj> =
                    objs.iter().zip(&m).filter(|(_, m)| *m >> i & 1 == 1).map(|(o, _)| version(*o, 2 - i)).collect();
                if i == 2 {
                    v.extend([T2, OU, MA].iter().map(|o| version(*o, 0)));
                }
                revs.push(rev(i, 3, v, if i == 2 { full_roots(false) } else { vec![] }, split));
            }
            check1(cx, &section_of(revs))
        },
    ));
    // --- roots
    v.push(Space::new(
        "roots",
        "3 revisions, each declaring any subset of the content and metadata root in either order with either target, plus the version and encryption roles and an undefined role",
        move |ch, cx| {
            let mut revs = vec![];
            for i in 0..3 {
                let objs: Vec<Obj> =
                    if i == 2 { ALL.iter().map(|o| version(*o, 0)).collect() } else { vec![version(T1, 2 - i)] };
                let mut roots = vec![];
                match ch.choose("content root", 3) {
                    0 => {}
                    1 => roots.push((1, xo(MA))),
                    _ => roots.push((1, xo(MB))),
                }
                match ch.choose("metadata root", 3) {
                    0 => {}
                    1 => roots.push((2, xo(DA))),
                    _ => roots.push((2, xo(DB))),
                }
                match ch.choose("other roles", 5) {
                    0 => {}
                    1 => roots.insert(0, (4, xo(T1))),
                    2 => roots.push((3, xo(T1))),
                    3 => roots.reverse(),
                    _ => roots.push((5 + i as u32, xo(T1))),
                }
                revs.push(rev(i, 3, objs, roots, 0));
            }
            check1(cx, &section_of(revs))
        },
    ));
    // --- how the revisions are linked
    v.push(Space::new(
        "links",
        "1..=4 revisions; the cell reaches its newest revision by cell manifest and mapping, cell manifest only, mapping only, manifest only or serial number; every base by mapping or directly; every stored order of the revision elements and mappings",
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", 4);
            let link = *ch.pick(
                "cell link",
                &[Link::Mapping, Link::Direct, Link::CellToRevision, Link::CellToManifest, Link::Serial],
            );
            let bd: Vec<bool> = (1..n).map(|_| ch.flag("base by manifest id")).collect();
            let mut revs = vec![];
            for i in 0..n {
                let r = n - 1 - i;
                let objs: Vec<Obj> = if i + 1 == n {
                    ALL.iter().map(|o| version(*o, r)).collect()
                } else {
                    // every object's newest version is in a different revision
                    [T1, T2, EL, ST].iter().enumerate().filter(|(k, _)| *k >= i).map(|(_, o)| version(*o, r)).collect()
                };
                revs.push(rev(i, n, objs, if i + 1 == n { full_roots(false) } else if i == 1 { full_roots(true) } else { vec![] }, 0));
            }
            let ir = section_of(revs);
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            let rv = ir.spaces[1].revs.clone();
            relink(&mut pk, &rv[0], link, &bd, &rv);
            // stored order of the revision manifests
            let order = ch.perm("order", n);
            let pos: Vec<usize> =
                pk.elems.iter().enumerate().filter(|(_, e)| rv.iter().any(|r| r.manifest == e.id)).map(|x| x.0).collect();
            let old: Vec<Elem> = pos.iter().map(|i| pk.elems[*i].clone()).collect();
            for (k, i) in pos.iter().enumerate() {
                pk.elems[*i] = old[order[k]].clone();
            }
            if ch.flag("reverse index") {
                for e in &mut pk.elems {
                    if let Body::StorageIndex(v) = &mut e.body {
                        v.reverse();
                    }
                }
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "crossed-identifiers",
        "a section of 2 pages with 3 revisions each, an image and an attachment: every identifier of a storage manifest, cell manifest, revision manifest, object group, stored file, revision, object, object space or context made equal to every identifier of another of these kinds; and all identifiers of one kind made the ones of another, paired in every rotation",
        move |ch, cx| {
            use std::collections::HashMap;
            use std::sync::LazyLock;
            static S: LazyLock<(XR<T>, Package, Vec<(Ns, Vec<Ex>)>)> = LazyLock::new(|| {
                let mut spaces = vec![section_root(&[vec![cell(2), cell(3)]])];
                let mut media = B::new();
                let (im, fi) = (crate::rich::full_image(&mut media, vec![9, 8, 7, 6], None), crate::rich::full_file(&mut media, vec![1, 2, 3], None));
                for c in 0..2 {
                    let mut revs = vec![];
                    for i in 0..3 {
                        let r = 2 - i + 10 * c;
                        let mut objs: Vec<Obj> = if i == 2 {
                            ALL.iter().map(|o| version(*o, r)).collect()
                        } else {
                            [vec![T1, EL], vec![T2]][i].iter().map(|o| version(*o, r)).collect()
                        };
                        if i == 2 && c == 0 {
                            let mut v = version(OU, r);
                            v.props.last_mut().unwrap().v = PV::Oids(vec![xo(EL), xo(600)]);
                            objs.retain(|o| o.id != xo(OU));
                            objs.push(v);
                            let mut e = version(EL, 0);
                            e.id = xo(600);
                            e.props.last_mut().unwrap().v = PV::Oids(vec![im, fi]);
                            objs.push(e);
                            objs.extend(media.objs.clone());
                        }
                        let mut r = rev(3 * c + i, 3 * c + 3, objs, if i == 2 { full_roots(false) } else { vec![] }, 1);
                        if i == 1 {
                            r.roots = vec![(2, xo(DB))];
                        }
                        revs.push(r);
                    }
                    spaces.push(SpaceIR { cell: cell(2 + c as u32), manifest: eid(2000 + c as u32), revs });
                }
                let ir = StoreIR { schema: C.section, spaces, blobs: media.blobs };
                let exp = expect_section(&ir, NAME);
                assert!(exp.is_ok());
                let pk = ir.build(&BuildOpts::default());
                let seen = std::cell::RefCell::new(vec![]);
                pk.clone().remap_ns(&|n, x| {
                    if !x.is_nil() && !matches!(n, Ns::Role | Ns::Root | Ns::Fragment) && !seen.borrow().contains(&(n, x)) {
                        seen.borrow_mut().push((n, x));
                    }
                    x
                });
                let mut kinds: Vec<(Ns, Vec<Ex>)> = vec![];
                for (n, x) in seen.into_inner() {
                    match kinds.iter_mut().find(|k| k.0 == n) {
                        Some(k) => k.1.push(x),
                        None => kinds.push((n, vec![x])),
                    }
                }
                (exp, pk, kinds)
            });
            let (exp, pk, kinds) = &*S;
            let (from, a) = ch.pick("kind", kinds);
            let (_, b) = ch.pick("as kind", kinds);
            let mut m: HashMap<Ex, Ex> = HashMap::new();
            if ch.flag("all") {
                let k = ch.choose("rotation", b.len().max(a.len()).min(40));
                for (i, x) in a.iter().enumerate() {
                    // no two of them the same
                    let y = if a.len() > b.len() { (i + k) % a.len() } else { (i + k) % b.len() };
                    if let Some(y) = b.get(y) {
                        m.insert(*x, *y);
                    }
                }
            } else {
                m.insert(*ch.pick("identifier", a), *ch.pick("as", b));
            }
            // identifiers of a kind stay distinct
            let mut to: Vec<Ex> = a.iter().map(|x| *m.get(x).unwrap_or(x)).collect();
            to.sort();
            to.dedup();
            if to.len() < a.len() {
                return Ok(());
            }
            let mut pk = pk.clone();
            pk.remap_ns(&|n, x| if n == *from { *m.get(&x).unwrap_or(&x) } else { x });
            check_bytes(cx, &pk.bytes(), exp)
        },
    ));
    // --- missing links
    v.push(Space::new(
        "missing-links",
        "3 revisions over 2 groups each, with each revision manifest, revision mapping, object group, cell manifest or cell mapping removed or renamed, for the page cell and for the data root",
        move |ch, cx| {
            let root = ch.flag("data root");
            let mut revs = vec![];
            for i in 0..3 {
                let objs: Vec<Obj> = if i == 2 {
                    ALL.iter().map(|o| version(*o, 0)).collect()
                } else {
                    vec![version(T1, 2 - i), version(T2, 2 - i)]
                };
                revs.push(rev(i, 3, objs, if i == 2 { full_roots(false) } else { vec![] }, 1));
            }
            let mut ir = section_of(revs);
            if root {
                // the same history for the section's own cell
                let one = ir.spaces[0].revs[0].clone();
                let mut v = vec![];
                for i in 0..3u32 {
                    let mut r = one.clone();
                    r.rev = Ex::new(GREV, 9000 + i);
                    r.manifest = eid(9000 + i);
                    r.base = if i < 2 { Ex::new(GREV, 9001 + i) } else { Ex::NIL };
                    let o = r.groups[0].objs.clone();
                    r.groups = vec![
                        GroupIR { id: eid(9100 + 2 * i), objs: o[..1].to_vec() },
                        GroupIR { id: eid(9101 + 2 * i), objs: o[1..].to_vec() },
                    ];
                    v.push(r);
                }
                ir.spaces[0].revs = v;
            }
            let si = if root { 0 } else { 1 };
            let sp = ir.spaces[si].clone();
            let mut pk = ir.build(&BuildOpts::default());
            let k = ch.choose("revision", 3);
            let r = &sp.revs[k];
            let rename = ch.flag("rename instead of remove");
            let gone = Ex::new([0xEF; 16], 5);
            let drop_elem = |pk: &mut Package, id: Ex| {
                if rename {
                    pk.elems.iter_mut().filter(|e| e.id == id).for_each(|e| e.id = gone)
                } else {
                    pk.elems.retain(|e| e.id != id)
                }
            };
            match ch.choose("what", 6) {
                0 => drop_elem(&mut pk, r.manifest),
                1 => drop_elem(&mut pk, r.groups[0].id),
                2 => drop_elem(&mut pk, r.groups[1].id),
                3 => {
                    for e in &mut pk.elems {
                        if let Body::StorageIndex(v) = &mut e.body {
                            if rename {
                                for s in v.iter_mut() {
                                    if let SI::Rev { id, .. } = s {
                                        if *id == r.rev {
                                            *id = gone
                                        }
                                    }
                                }
                            } else {
                                v.retain(|s| !matches!(s, SI::Rev { id, .. } if *id == r.rev));
                            }
                        }
                    }
                }
                4 => drop_elem(&mut pk, sp.manifest),
                _ => {
                    for e in &mut pk.elems {
                        if let Body::StorageIndex(v) = &mut e.body {
                            if rename {
                                for s in v.iter_mut() {
                                    if let SI::Cell { cell, .. } = s {
                                        if *cell == sp.cell {
                                            *cell = Cell(ctx0(), gone)
                                        }
                                    }
                                }
                            } else {
                                v.retain(|s| !matches!(s, SI::Cell { cell, .. } if *cell == sp.cell));
                            }
                        }
                    }
                }
            }
            check_reject(cx, &pk.bytes())
        },
    ));
    // --- several cells with the same object identifiers
    v.push(Space::new(
        "cells",
        "2 pages (cells) using the same object identifiers, each with 1..=3 revisions rewriting any subset of its two texts and declaring either root; the cells' elements interleaved or not; a third page may share an object group or a revision with the first",
        move |ch, cx| {
            let mut spaces = vec![section_root(&[vec![cell(2), cell(3)]])];
            for c in 0..2u32 {
                let n = 1 + ch.choose("revisions", 3);
                let mut revs = vec![];
                for i in 0..n {
                    let r = n - 1 - i + 10 * c as usize;
                    let (objs, roots): (Vec<Obj>, _) = if i + 1 == n {
                        (ALL.iter().map(|o| version(*o, r)).collect(), full_roots(false))
                    } else {
                        let m = ch.choose("rewritten", 4);
                        (
                            [T1, T2].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, o)| version(*o, r)).collect(),
                            if ch.flag("root") { vec![(1, xo(MB))] } else { vec![] },
                        )
                    };
                    let mut x = rev(i, n, objs, roots, 0);
                    x.rev.n += 100 * c;
                    x.manifest.n += 100 * c;
                    if !x.base.is_nil() {
                        x.base.n += 100 * c;
                    }
                    x.groups[0].id.n += 1000 * c;
                    revs.push(x);
                }
                spaces.push(SpaceIR { cell: cell(2 + c), manifest: eid(2000 + c), revs });
            }
            let mut ir = StoreIR { schema: C.section, spaces, blobs: vec![] };
            match ch.choose("third page", 3) {
                0 => {}
                1 => {
                    // a revision of its own over the first page's revision
                    let base = ir.spaces[1].revs.clone();
                    let mut r = rev(90, 91, vec![version(T1, 77)], vec![], 0);
                    r.base = base[0].rev;
                    let mut revs = vec![r];
                    revs.extend(base);
                    ir.spaces.push(SpaceIR { cell: cell(4), manifest: eid(2009), revs });
                }
                _ => {
                    // the same object groups in a revision of its own
                    let mut r = ir.spaces[1].revs.last().unwrap().clone();
                    r.rev = Ex::new(GREV, 5900);
                    r.manifest = eid(5900);
                    ir.spaces.push(SpaceIR { cell: cell(4), manifest: eid(2009), revs: vec![r] });
                }
            }
            if ir.spaces.len() == 4 {
                ir.spaces[0] = section_root(&[vec![cell(4), cell(2)], vec![cell(3)]]);
            }
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            dedup(&mut pk);
            if ch.flag("interleave") {
                let n = pk.elems.len();
                let mut e: Vec<Elem> = vec![];
                for k in 0..n {
                    e.push(pk.elems[if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }].clone());
                }
                pk.elems = e;
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    // --- cells that share the older part of a history
    v.push(Space::new(
        "shared-revisions",
        "a page of 1..=3 revisions and a second one with 0..=2 revisions of its own over any of the first one's revisions, each revision rewriting any subset of the two texts and declaring the other root or not; the second page in the same context and another object space, another context of the same space, or both; its cell stored before or behind the first",
        move |ch, cx| {
            let one = |ch: &mut Ch, r: usize| {
                let m = ch.choose("rewritten", 4);
                let roots = if ch.flag("root") { vec![(1, xo(MB))] } else { vec![] };
                ([T1, T2].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, o)| version(*o, r)).collect::<Vec<Obj>>(), roots)
            };
            let n = 1 + ch.choose("revisions", 3);
            let mut a = vec![];
            for i in 0..n {
                let r = n - 1 - i;
                let (objs, roots) = if i + 1 == n { (ALL.iter().map(|o| version(*o, r)).collect(), full_roots(false)) } else { one(ch, r) };
                a.push(rev(i, n, objs, roots, 0));
            }
            let own = ch.choose("own revisions", 3);
            let over = ch.choose("over", n);
            let mut b = vec![];
            for i in 0..own {
                let (objs, roots) = one(ch, 10 + own - i);
                let mut x = rev(i, own, objs, roots, 0);
                x.rev.n += 100;
                x.manifest.n += 100;
                x.base = if i + 1 == own { a[over].rev } else { Ex { n: x.base.n + 100, ..x.base } };
                x.groups[0].id.n += 1000;
                b.push(x);
            }
            b.extend(a[over..].iter().cloned());
            let (ca, other) = (cell(2), Ex::new([0x5c; 16], 9));
            let cb = *ch.pick("cell", &[cell(3), Cell(other, ca.1), Cell(other, cell(3).1)]);
            let (sa, sb) = (SpaceIR { cell: ca, manifest: eid(2000), revs: a }, SpaceIR { cell: cb, manifest: eid(2001), revs: b });
            let root = section_root(&[vec![ca, cb]]);
            let spaces = if ch.flag("second first") { vec![root, sb, sa] } else { vec![root, sa, sb] };
            let ir = StoreIR { schema: C.section, spaces, blobs: vec![] };
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            dedup(&mut pk);
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    // --- histories of the section's own cell and of tables of contents
    v.push(Space::new(
        "section-histories",
        "1..=3 revisions of the data root; every newer one rewrites any subset of section node, metadata and two page series and declares either of two content and metadata roots",
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", 3);
            let base = section_root(&[vec![cell(2)], vec![cell(2), cell(2)]]);
            let get = |n: u32| base.revs[0].groups[0].objs.iter().find(|o| o.id == xo(n)).unwrap().clone();
            let ver = |k: u32, r: usize| {
                let mut o = get(if k == 980_902 { SMETA } else if k == 980_901 { SEC } else { k });
                o.id = xo(k);
                match k {
                    SEC | 980_901 => {
                        let ids = if r % 2 == 1 { vec![xo(980_011), xo(980_010)] } else { vec![xo(980_010)] };
                        o.set(p::ElementChildNodes, PV::Oids(ids));
                    }
                    SMETA | 980_902 => {
                        o.set(p::SectionDisplayName, PV::s(&format!("name {k} of {r}")));
                    }
                    _ => {
                        o.set(p::ChildGraphSpaceElementNodes, PV::Osids(vec![cell(2); 1 + (k as usize + r) % 3]));
                    }
                }
                o
            };
            let mut revs = vec![];
            for i in 0..n {
                let r = n - 1 - i;
                let (objs, roots): (Vec<Obj>, _) = if i + 1 == n {
                    (
                        [SEC, SMETA, 980_010, 980_011, 980_901, 980_902].iter().map(|k| ver(*k, r)).collect(),
                        vec![(1, xo(SEC)), (2, xo(SMETA))],
                    )
                } else {
                    let m = ch.choose("rewritten", 16);
                    let mut roots = vec![];
                    match ch.choose("content root", 3) {
                        0 => {}
                        1 => roots.push((1, xo(SEC))),
                        _ => roots.push((1, xo(980_901))),
                    }
                    match ch.choose("metadata root", 3) {
                        0 => {}
                        1 => roots.push((2, xo(SMETA))),
                        _ => roots.push((2, xo(980_902))),
                    }
                    (
                        [SEC, SMETA, 980_010, 980_902]
                            .iter()
                            .enumerate()
                            .filter(|(k, _)| m >> k & 1 == 1)
                            .map(|(_, k)| ver(*k, r))
                            .collect(),
                        roots,
                    )
                };
                let mut x = rev(i, n, objs, roots, 0);
                x.rev.n += 3000;
                x.manifest.n += 3000;
                if !x.base.is_nil() {
                    x.base.n += 3000;
                }
                x.groups[0].id.n += 3000;
                revs.push(x);
            }
            let pg = section_of(vec![rev(0, 1, ALL.iter().map(|o| version(*o, 0)).collect(), full_roots(false), 0)]);
            let ir = StoreIR {
                schema: C.section,
                spaces: vec![SpaceIR { cell: cell(1), manifest: eid(1000), revs }, pg.spaces[1].clone()],
                blobs: vec![],
            };
            check1(cx, &ir)
        },
    ));
    // --- attachments replaced by newer revisions
    v.push(Space::new(
        "attachment-histories",
        "an image and an attachment over 1..=3 revisions; every newer one rewrites any subset of the image, its container, the attachment and its container, each version of a container with its own stored data or with none",
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", 3);
            let mut blobs = vec![];
            let mut mk = |k: u32, r: usize, bare: bool| -> Obj {
                let blob = |blobs: &mut Vec<(Ex, Vec<u8>)>| {
                    let id = Ex::new(GBLOB, k * 10 + r as u32);
                    blobs.push((id, vec![k as u8, r as u8, 3]));
                    id
                };
                match k {
                    31 => {
                        obj(k, jc::ImageNode, vec![pr(p::PictureContainer, PV::Oid(xo(32))), prs(p::ImageAltText, &format!("{r}"))])
                    }
                    32 => Obj { blob: (!bare).then(|| blob(&mut blobs)), ..obj(k, jc::PictureContainer, vec![prs(p::PictureFileExtension, &format!(".{r}"))]) },
                    33 => obj(
                        k,
                        jc::EmbeddedFileNode,
                        vec![
                            pr(p::LastModifiedTime, PV::U32(3)),
                            pr(p::EmbeddedFileContainer, PV::Oid(xo(34))),
                            prs(p::EmbeddedFileName, &format!("f{r}")),
                        ],
                    ),
                    _ => Obj { blob: (!bare).then(|| blob(&mut blobs)), ..obj(k, jc::EmbeddedFileContainer, vec![]) },
                }
            };
            let mut revs = vec![];
            for i in 0..n {
                let r = n - 1 - i;
                let objs: Vec<Obj> = if i + 1 == n {
                    let mut v: Vec<Obj> = [31, 32, 33, 34].iter().map(|k| mk(*k, r, k % 2 == 0 && ch.flag("without data"))).collect();
                    let mut pg = version(PA, 0);
                    pg.set(p::ElementChildNodes, PV::Oids(vec![xo(31), xo(33)]));
                    v.extend([pg, version(MA, 0), version(DA, 0)]);
                    v
                } else {
                    let m = ch.choose("rewritten", 16);
                    [31, 32, 33, 34].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, k)| mk(*k, r, k % 2 == 0 && ch.flag("without data"))).collect()
                };
                revs.push(rev(i, n, objs, if i + 1 == n { full_roots(false) } else { vec![] }, i % 3));
            }
            let mut ir = section_of(revs);
            ir.blobs = blobs;
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "toc-histories",
        "1..=3 (thorough 4) revisions of a table of contents; every newer one rewrites any subset of its root and two entries and may declare another root",
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", if deep { 4 } else { 3 });
            let dir = cx.scratch_dir();
            let nb = dir.join("nb");
            if !nb.is_dir() {
                std::fs::create_dir(&nb).unwrap();
            }
            let mk = |k: u32, r: usize| match k {
                1 | 2 => toc_node(xo(k), &if (k as usize + r) % 2 == 1 { vec![xo(10), xo(11)] } else { vec![xo(11)] }),
                _ => toc_leaf(xo(k), &format!("e{k}r{r}.one"), ((k as usize + r) % 3) as u32),
            };
            let mut revs = vec![];
            for i in 0..n {
                let r = n - 1 - i;
                let (objs, roots): (Vec<Obj>, Vec<(u32, Ex)>) = if i + 1 == n {
                    ([1, 2, 10, 11].iter().map(|k| mk(*k, r)).collect(), vec![(1, xo(1))])
                } else {
                    let m = ch.choose("rewritten", 8);
                    (
                        [1, 10, 11].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, k)| mk(*k, r)).collect(),
                        match ch.choose("root", 3) {
                            0 => vec![],
                            k => vec![(1, xo(k as u32))],
                        },
                    )
                };
                revs.push(rev(i, n, objs, roots, 0));
            }
            let ir = StoreIR { schema: C.notebook, spaces: vec![SpaceIR { cell: cell(1), manifest: eid(2000), revs }], blobs: vec![] };
            check_toc_names(cx, &ir)
        },
    ));
    // --- long histories
    let ml = if deep { 120 } else { 40 };
    v.push(Space::new(
        "long-histories",
        format!("chains of every length up to {ml} (plus 200, 500), text and root rewritten in one revision each, at every pair of positions (long chains: 8 positions)"),
        move |ch, cx| {
            let k = ch.choose("length", ml + 2);
            let n = if k < ml { k + 1 } else { [200, 500][k - ml] };
            let pos = |i: usize| if n <= ml { i } else { [0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1][i] };
            let m = if n <= ml { n } else { 8 };
            let a = pos(ch.choose("text in", m));
            let b = pos(ch.choose("root in", m));
            let mut revs = vec![];
            for i in 0..n {
                let mut objs = vec![];
                let mut roots = vec![];
                if i + 1 == n {
                    objs = ALL.iter().map(|o| version(*o, 0)).collect();
                    roots = full_roots(false);
                } else {
                    if i == a {
                        objs.push(version(T1, n - 1 - i));
                    }
                    if i == b {
                        roots = full_roots(true);
                    }
                }
                let mut r = rev(i, n, objs, roots, 0);
                if r.groups[0].objs.is_empty() {
                    r.groups.clear();
                } else {
                    r.groups[0].id = eid(100_000 + i as u32);
                }
                revs.push(r);
            }
            check1(cx, &section_of(revs))
        },
    ));
    v.push(super::scale::space("C05", t));
    v
}

/// remove repeated elements and mappings (shared revisions)
pub fn dedup(pk: &mut Package) {
    let mut seen = std::collections::HashSet::new();
    pk.elems.retain(|e| seen.insert(e.id));
    for e in &mut pk.elems {
        if let Body::StorageIndex(v) = &mut e.body {
            let mut seen = std::collections::HashSet::new();
            v.retain(|s| match s {
                SI::Rev { id, .. } => seen.insert(*id),
                _ => true,
            });
        }
    }
}

/// Create every file a table of contents could name as an empty section with a
/// distinct name is costly; instead compare through section groups: every name
/// becomes a directory with an empty table of contents.
pub fn check_toc_names(cx: &mut Cx, ir: &StoreIR) -> R {
    let bytes = ir.build(&BuildOpts::default()).bytes();
    check_toc_bytes(cx, ir, &bytes)
}
/// the notebook of the table of contents `bytes`, an encoding of `ir`
pub fn check_toc_bytes(cx: &mut Cx, ir: &StoreIR, bytes: &[u8]) -> R {
    let dir = cx.scratch_dir().join("tocs");
    if !dir.is_dir() {
        std::fs::create_dir(&dir).unwrap();
    }
    cx.mix(bytes);
    let mut exp = expect_toc(ir);
    if let Ok((names, _)) = &mut exp {
        names.retain(|n| n != "OneNote_RecycleBin");
        if names.iter().any(|n| entry_name(n) == Some(false)) {
            exp = Err(X::Err);
        }
    }
    if let Ok((names, _)) = &exp {
        for n in names {
            let d = dir.join(n);
            if !d.is_dir() {
                std::fs::create_dir_all(&d).unwrap();
                std::fs::write(d.join("t.onetoc2"), toc_flat(&[]).build(&BuildOpts::default()).bytes()).unwrap();
            }
        }
    }
    let f = dir.join("nb.onetoc2");
    std::fs::write(&f, bytes).unwrap();
    let got = parse_nb(cx, &f, bytes.len())?;
    if let Ok((names, _)) = &exp {
        if names.iter().any(|n| entry_name(n).is_none()) {
            exp = Err(X::Any);
        }
    }
    let exp = exp.map(|(names, col)| {
        T::N(
            "notebook",
            vec![
                ("color", col),
                (
                    "entries",
                    T::L(names.iter().map(|n| T::N("group", vec![("name", T::s(n)), ("entries", T::L(vec![]))])).collect()),
                ),
            ],
        )
    });
    judge(cx, &exp, &got)
}
