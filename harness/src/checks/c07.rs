//! References: every reference property resolves to the objects stored for it.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use super::c08;
use crate::util::*;
use std::sync::LazyLock;

pub const CIDS: [Cid; 4] = [Cid::Dedup, Cid::Unique, Cid::Collide, Cid::Mirror];
fn opts(cid: Cid, streams: usize) -> BuildOpts {
    BuildOpts {
        oo: ObjOpts { cid, osid_stream: streams >= 1, ctx_stream: streams >= 2, nil: 0 },
        ..BuildOpts::default()
    }
}
/// `n` entries over a universe of targets: the k-th selection
fn select(ch: &mut Ch, label: &'static str, max: usize, of: &[Ex]) -> Vec<Ex> {
    let n = ch.choose(label, max + 1);
    (0..n).map(|_| *ch.pick("target", of)).collect()
}
/// unknown properties carrying references of every kind
pub fn carriers(o: &[Ex], s: Cell) -> Vec<PV> {
    let set = |v: Vec<PV>| v.into_iter().enumerate().map(|(i, v)| Prop::new(0x6100 + i as u32, v)).collect::<Vec<_>>();
    let a = o[0];
    let b = o[o.len() - 1];
    vec![
        PV::U32(5),
        PV::Oid(a),
        PV::Oids(vec![b, a, b]),
        PV::Oids(vec![]),
        PV::Osid(s),
        PV::Osids(vec![s, s]),
        PV::Ctx(ctx0()),
        PV::Ctxs(vec![ctx0(), ctx0()]),
        PV::Set(set(vec![PV::Oid(b)])),
        PV::Set(set(vec![PV::Oids(vec![b, a]), PV::Osid(s), PV::U8(1)])),
        PV::Vals(VALS, vec![set(vec![PV::Oid(b)]), set(vec![]), set(vec![PV::U16(1), PV::Oids(vec![a, a]), PV::Ctx(ctx0())])]),
        PV::Vals(VALS, vec![]),
        PV::Set(set(vec![PV::Set(set(vec![PV::Vals(VALS, vec![set(vec![PV::Oid(a), PV::Osids(vec![s])])]), PV::Oid(b)]))])),
    ]
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::references(t == Tier::Thorough));
    v.push(Space::new(
        "element-orders",
        "an outline element with 0..=2 contents, 0..=2 children and 0..=2 lists, stored in every order of its five reference properties, under 4 compact-id schemes",
        move |ch, cx| {
            let mut b = B::new();
            let st = b.style();
            let tx: Vec<Ex> = ["a", "b"].iter().map(|s| b.text(s, st)).collect();
            let kids: Vec<Ex> = [7, 8].iter().map(|l| b.element(*l, &[], &[])).collect();
            let ls: Vec<Ex> = (0..2)
                .map(|i| {
                    let l = b.list();
                    b.set(l, p::ListRestart, PV::U32(i));
                    l
                })
                .collect();
            let e = b.element(1, &[], &[]);
            let nc = ch.choose("contents", 3);
            let nk = ch.choose("children", 3);
            let nl = ch.choose("lists", 3);
            let o = b.outline(&[e]);
            let eo = b.o(e);
            eo.props.retain(|q| !matches!(q.v, PV::Oid(_)));
            let five = [
                pr(p::ContentChildNodes, PV::Oids(tx[..nc].to_vec())),
                pr(p::ElementChildNodes, PV::Oids(kids[..nk].to_vec())),
                pr(p::ListNodes, PV::Oids(ls[..nl].to_vec())),
                pr(p::AuthorOriginal, PV::Oid(tx[0])),
                pr(p::AuthorMostRecent, PV::Oid(ls[1])),
            ];
            for i in ch.perm("order", 5) {
                eo.props.push(five[i].clone());
            }
            let ir = section1(b, &[o], None);
            check_store(cx, &ir, &opts(*ch.pick("cid", &CIDS), 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "targets",
        "contents and children of an element and the items of its outline: every assignment of up to 3 (thorough 4) entries with repetition, under 4 compact-id schemes",
        move |ch, cx| {
            let mut b = B::new();
            let st = b.style();
            let tx: Vec<Ex> = ["a", "b", "c"].iter().map(|s| b.text(s, st)).collect();
            let kids: Vec<Ex> = [7, 8].iter().map(|l| b.element(*l, &[], &[])).collect();
            let c = select(ch, "contents", if deep { 4 } else { 3 }, &tx);
            let k = select(ch, "children", 3, &kids);
            let e = b.element(1, &c, &k);
            let mut all = kids.clone();
            all.push(e);
            let its = select(ch, "items", 2, &all);
            let o = b.outline(&its);
            let ir = section1(b, &[o, o], None);
            check_store(cx, &ir, &opts(*ch.pick("cid", &CIDS), 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "compact-ids",
        "an element with 2 contents, 2 children and 1 list and a series with 3 page references behind an unknown reference: every assignment of 4 compact identifiers to the 7 (4) entries",
        move |ch, cx| {
            if ch.flag("series") {
                let mut m = 0u64;
                for i in 0..5 {
                    m |= (ch.choose("id", 4) as u64) << (2 * i);
                }
                let mut ir = three_pages(&[2, 4, 3]);
                let s = ir.obj(0, xo(980_010));
                s.props.insert(0, Prop::new(0x6000, PV::Osid(cell(4))));
                s.props.push(Prop::new(0x6001, PV::Oid(xo(SEC))));
                return check_store(cx, &ir, &opts(Cid::Pick(m), 0), &Opts::default());
            }
            let mut m = 0u64;
            for i in 0..7 {
                m |= (ch.choose("id", 4) as u64) << (2 * i);
            }
            let mut b = B::new();
            let st = b.style();
            let tx: Vec<Ex> = ["a", "b"].iter().map(|s| b.text(s, st)).collect();
            let kids: Vec<Ex> = [7, 8].iter().map(|l| b.element(*l, &[], &[])).collect();
            let l = b.list();
            let e = b.element(1, &tx, &kids);
            b.set(e, p::ListNodes, PV::Oids(vec![l]));
            let o = b.outline(&[e]);
            let ir = section1(b, &[o], None);
            check_store(cx, &ir, &opts(Cid::Pick(m), 0), &Opts::default())
        },
    ));
    let n = if deep { 3 } else { 2 };
    v.push(Space::new(
        "carriers",
        format!("every sequence of up to {n} unknown reference-carrying properties (13 kinds incl. nested sets and lists) before, between and after the reference properties of an element, a paragraph, an image, a page and a page series, under 4 compact-id schemes"),
        move |ch, cx| {
            let mut b = B::new();
            let st = b.style();
            let tx: Vec<Ex> = ["a", "b"].iter().map(|s| b.text(s, st)).collect();
            let kid = b.element(7, &[], &[]);
            let e = b.element(1, &tx, &[kid]);
            let d = b.tag_def("lab", 3);
            let img = full_image(&mut b, vec![1, 2], Some(tags(vec![tagset(Some(d), 1, 1, None)])));
            let ink = ink_text(&mut b);
            let e2 = b.element(1, &[img, ink], &[]);
            let o = b.outline(&[e, e2]);
            let mut ir = section1(b, &[o, img], None);
            let host = ch.choose("host", 5);
            let (si, id) = [(1, e), (1, ink), (1, img), (1, xo(PAGE)), (0, xo(980_010))][host];
            let other = cell(77);
            let cs = carriers(&[tx[1], kid, d], other);
            let k = ch.choose("carriers", n + 1);
            let ob = ir.obj(si, id);
            let mut pos = 0;
            for i in 0..k {
                let c = ch.pick("carrier", &cs).clone();
                // before the first, in the middle, at the end
                let at = [pos, (ob.props.len() + pos) / 2, ob.props.len()][ch.choose("position", 3)];
                pos = pos.max(at.min(ob.props.len()));
                ob.props.insert(at, Prop::new(0x6000 + i as u32, c));
            }
            check_store(cx, &ir, &opts(*ch.pick("cid", &CIDS), 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "paragraph-orders",
        "a paragraph with style, 0..=2 run styles, run data with 0..=2 nested references, 0..=2 embedded inks and 0..=2 tags in every order of the five properties, under 2 (thorough 4) compact-id schemes",
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            b.set(base, p::FontSize, PV::U16(5));
            let nr = ch.choose("ink runs", 3);
            let nest = ch.choose("nested", 3);
            let nt = ch.choose("tags", 3);
            let sts: Vec<Ex> = (0..nr)
                .map(|i| {
                    let s = emb_style(&mut b, None);
                    b.set(s, p::FontSize, PV::U16(10 + i as u16));
                    s
                })
                .collect();
            let inks: Vec<Ex> = (0..nr)
                .map(|i| {
                    let s = b.stroke(&[i as i64 + 1], &[5]);
                    b.ink_data(&[s])
                })
                .collect();
            let defs = [b.tag_def("d0", 1), b.tag_def("d1", 2)];
            let t = b.text("x", base);
            let mut data: Vec<Vec<Prop>> = (0..nr).map(|i| ink_run(i as f32)).collect();
            for i in 0..nest {
                if nr > 0 {
                    data[i % nr].insert(0, Prop::new(0x6200 + i as u32, PV::Oid(defs[0])));
                }
            }
            let tg: Vec<Vec<Prop>> = (0..nt).map(|i| tagset(Some(defs[1 - i]), i as u16, 1, None)).collect();
            let five = [
                pr(p::ParagraphStyle, PV::Oid(base)),
                pr(p::TextRunFormatting, PV::Oids(sts)),
                pr(p::TextRunData, PV::Vals(VALS, data)),
                pr(p::TextRunDataObject, PV::Oids(inks)),
                pr(p::NoteTags, tags(tg)),
            ];
            let o = b.o(t);
            o.props.retain(|q| !matches!(q.v, PV::Oid(_)));
            for i in ch.perm("order", 5) {
                o.props.push(five[i].clone());
            }
            let w = b.wrap(&[t]);
            let ir = section1(b, &[w], None);
            let cid = CIDS[ch.choose("cid", if deep { 4 } else { 2 })];
            check_store(cx, &ir, &opts(cid, 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "table-and-attachment-orders",
        "a table (rows, tags), an image (container, frames, tags), an attachment (container, preview picture, tags) and ink (data) with their reference properties in every order and the tags holding 0..=2 definitions",
        move |ch, cx| {
            let mut b = B::new();
            let defs = [b.tag_def("d0", 1), b.tag_def("d1", 2)];
            let nt = ch.choose("tags", 3);
            let tg: Vec<Vec<Prop>> = (0..nt).map(|i| tagset(Some(defs[i]), i as u16, 1, None)).collect();
            let host = match ch.choose("host", 4) {
                0 => full_table(&mut b, Some(tags(tg))),
                1 => full_image(&mut b, vec![1], Some(tags(tg))),
                2 => full_file(&mut b, vec![1, 2], Some(tags(tg))),
                _ => full_ink(&mut b),
            };
            let other = b.para("other");
            let o = b.o(host);
            o.props.push(Prop::new(0x6001, PV::Oids(vec![other, other])));
            let (mut refs, rest): (Vec<Prop>, Vec<Prop>) =
                o.props.drain(..).partition(|q| matches!(q.v, PV::Oid(_) | PV::Oids(_) | PV::Vals(..)));
            let n = refs.len();
            let at = ch.choose("split", n + 1);
            refs = ch.perm("order", n).into_iter().map(|i| refs[i].clone()).collect();
            o.props.extend(refs[..at].to_vec());
            o.props.extend(rest);
            o.props.extend(refs[at..].to_vec());
            let w = b.wrap(&[host]);
            let ir = section1(b, &[w], None);
            check_store(cx, &ir, &opts(*ch.pick("cid", &CIDS), 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "object-spaces",
        "1..=2 series over 4 page spaces: every list of up to 3 pages each with repetition, the list preceded or followed by unknown object-space, context and object references, with and without forced streams, under 4 compact-id schemes",
        move |ch, cx| {
            let two = ch.flag("two series");
            let mut lists = vec![];
            for _ in 0..1 + two as usize {
                let n = ch.choose("pages", if two { 3 } else { 4 });
                lists.push((0..n).map(|_| 2 + ch.choose("page", 3) as u32).collect::<Vec<_>>());
            }
            let mut ir = pages(&lists);
            let cs = carriers(&[xo(SEC), xo(SMETA)], cell(4));
            let k = ch.choose("carrier", cs.len());
            let s = ir.obj(0, xo(980_010));
            let at = if ch.flag("after") { s.props.len() } else { 0 };
            s.props.insert(at, Prop::new(0x6000, cs[k].clone()));
            let st = ch.choose("streams", 3);
            check_store(cx, &ir, &opts(*ch.pick("cid", &CIDS), st), &Opts::default())
        },
    ));
    v.push(Space::new(
        "counts",
        "every number 0..=300 of contents of one element (and of pages of one series up to 60), preceded by 0, 1 or 200 unknown references, under 4 compact-id schemes",
        move |ch, cx| {
            let pre = [0, 1, 200][ch.choose("before", 3)];
            let cid = *ch.pick("cid", &CIDS);
            let n = ch.choose("count", 362);
            if n > 300 {
                let k = n - 301;
                let l: Vec<u32> = (0..k).map(|i| 2 + (i as u32 * 7 + 1) % 3).collect();
                let mut ir = pages(&[l]);
                ir.obj(0, xo(980_010)).props.insert(0, Prop::new(0x6000, PV::Osids(vec![cell(3); pre])));
                return check_store(cx, &ir, &opts(cid, 0), &Opts::default());
            }
            let mut b = B::new();
            let st = b.style();
            let tx: Vec<Ex> = (0..5).map(|i| b.text(&format!("t{i}"), st)).collect();
            let c: Vec<Ex> = (0..n).map(|i| tx[(i * i + i / 7) % 5]).collect();
            let e = b.element(1, &c, &[]);
            b.o(e).props.insert(0, Prop::new(0x6000, PV::Oids(vec![tx[4]; pre])));
            let o = b.outline(&[e]);
            check_store(cx, &section1(b, &[o], None), &opts(cid, 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "nested-tags",
        "0..=3 tags per item, each with no definition or one of two, each tag's set holding unknown references before or after its definition, a further nested list, and the item's own references before or after",
        move |ch, cx| {
            let mut b = B::new();
            let defs = [b.tag_def("d0", 1), b.tag_def("d1", 2)];
            let base = b.style();
            let other = b.para("other");
            let t = b.text("x", base);
            let n = ch.choose("tags", 4);
            let mut sets = vec![];
            for i in 0..n {
                let d = match ch.choose("definition", 3) {
                    0 => None,
                    k => Some(defs[k - 1]),
                };
                let mut s = tagset(d, i as u16, 1, Some(i as u32));
                match ch.choose("extra", 4) {
                    0 => {}
                    1 => s.insert(0, Prop::new(0x6000, PV::Oids(vec![other, defs[0]]))),
                    2 => s.push(Prop::new(0x6000, PV::Oid(other))),
                    _ => s.insert(
                        1,
                        Prop::new(0x6000, PV::Vals(VALS, vec![vec![Prop::new(1, PV::Oid(other))], vec![Prop::new(1, PV::U8(3)), Prop::new(2, PV::Oid(base))]])),
                    ),
                }
                sets.push(s);
            }
            let q = pr(p::NoteTags, tags(sets));
            let o = b.o(t);
            if ch.flag("before") {
                o.props.insert(0, q)
            } else {
                o.props.push(q)
            }
            let w = b.wrap(&[t]);
            check_store(cx, &section1(b, &[w], None), &opts(CIDS[ch.choose("cid", 4)], 0), &Opts::default())
        },
    ));
    v.push(Space::new(
        "nil-references",
        "the rich section: every object reference replaced by nil, or nil inserted at every position of every reference array, or an unknown nil reference before or after every property set, under 4 compact-id schemes and 32 in which the identifiers are numbered from one bit on; the nil references without entries in the table of references, with entries, or with entries and identifiers of their own",
        move |ch, cx| {
            static S: LazyLock<(StoreIR, Vec<(c08::Path, usize, usize, bool)>)> = LazyLock::new(|| {
                let mut ir = c08::rich1();
                let mut v = vec![];
                for q in c08::lists(&ir.clone()) {
                    let l = c08::list(&mut ir, &q);
                    for (i, x) in l.iter().enumerate() {
                        match &x.v {
                            PV::Oid(_) => v.push((q.clone(), i, 0, true)),
                            PV::Oids(r) => {
                                v.extend((0..r.len()).map(|k| (q.clone(), i, k, true)));
                                v.extend((0..=r.len()).map(|k| (q.clone(), i, k, false)));
                            }
                            _ => {}
                        }
                    }
                    v.push((q.clone(), usize::MAX, 0, true));
                    v.push((q.clone(), usize::MAX, 1, true));
                }
                (ir, v)
            });
            let (path, i, k, replace) = ch.pick("place", &S.1);
            let mut ir = S.0.clone();
            let l = c08::list(&mut ir, path);
            if *i == usize::MAX {
                let at = if *k == 0 { 0 } else { l.len() };
                l.insert(at, Prop::new(0x6000, PV::Oid(Ex::NIL)));
            } else {
                match &mut l[*i].v {
                    PV::Oid(x) => *x = Ex::NIL,
                    PV::Oids(r) if *replace => r[*k] = Ex::NIL,
                    PV::Oids(r) => r.insert(*k, Ex::NIL),
                    _ => unreachable!(),
                }
            }
            let k = ch.choose("cid", 36);
            let cid = if k < 4 { CIDS[k] } else { Cid::Rot(k as u32 - 4) };
            let mut bo = opts(cid, 0);
            // entries of several targets are told apart by an identifier alone
            bo.oo.nil = ch.choose("nil entries", if matches!(cid, Cid::Dedup | Cid::Unique | Cid::Rot(_)) { 3 } else { 2 }) as u8;
            check_store(cx, &ir, &bo, &Opts::default())
        },
    ));
    // --- arrays that do not fit the property stream
    v.push(Space::new(
        "array-sizes",
        "every object of a section of three pages, one with every kind of content and a table of contents: its array of referenced objects longer than its references by 1..=4, 2^k-1, 2^k or 2^k+1 (k up to 16), its array of referenced cells longer by as many or shorter by 1..=all, the surplus entries copies of its own, of another object or nil, before or behind its own, the declared counts following or not: refused",
        move |ch, cx| {
            use super::c06::small;
            let (ir, toc) = match ch.choose("file", 4) {
                0 => (small(), false),
                1 => (three_pages(&[2, 4, 3]), false),
                2 => (crate::rich::rich(), false),
                _ => (crate::rich::rich_toc(), true),
            };
            let mut pk = ir.build(&BuildOpts::default());
            let mut at = vec![];
            for (i, e) in pk.elems.iter().enumerate() {
                // the header cell is only identified
                if let Body::Group { decls, .. } = &e.body
                    && e.id != eid(5)
                {
                    for (k, d) in decls.iter().enumerate() {
                        if let Decl::Obj { part: 1, id, .. } = d {
                            // the older versions of an object are not looked at
                            if e.id == eid(2078) && ir.spaces[1].revs[0].groups[0].objs.iter().any(|o| o.id == *id) {
                                continue;
                            }
                            at.push((i, k));
                        }
                    }
                }
            }
            let (i, k) = *ch.pick("object", &at);
            let Body::Group { decls, data, .. } = &mut pk.elems[i].body else { unreachable!() };
            let Dat::Obj { refs, cells, data, .. } = &mut data[k] else { return Ok(()) };
            // nil references may have entries of their own
            let most = (u32::from_le_bytes(data[..4].try_into().unwrap()) & 0xff_ffff) as usize;
            let n = match ch.choose("more", 4 + 3 * 14) {
                k if k < 4 => 1 + k,
                k => (1usize << (3 + (k - 4) / 3)) + (k - 4) % 3 - 1,
            };
            let front = ch.flag("before");
            match ch.choose("array", 3) {
                0 => {
                    let x = [Ex::NIL, xo(1), refs.first().copied().unwrap_or(xo(2))][ch.choose("entry", 3)];
                    if refs.len() + n <= most {
                        return Ok(());
                    }
                    let own = std::mem::take(refs);
                    let more = vec![x; n];
                    *refs = if front { [more, own].concat() } else { [own, more].concat() };
                }
                1 => {
                    let x = [Cell(Ex::NIL, Ex::NIL), cell(9), cells.first().copied().unwrap_or(cell(8))][ch.choose("entry", 3)];
                    let own = std::mem::take(cells);
                    let more = vec![x; n];
                    *cells = if front { [more, own].concat() } else { [own, more].concat() };
                }
                _ => {
                    if n > cells.len() || n > 4 {
                        return Ok(());
                    }
                    if front {
                        cells.drain(..n);
                    } else {
                        cells.truncate(cells.len() - n);
                    }
                }
            }
            let (nr, nc) = (refs.len() as u64, cells.len() as u64);
            if ch.flag("declared")
                && let Decl::Obj { refs, cells, .. } = &mut decls[k]
            {
                (*refs, *cells) = (nr, nc);
            }
            let b = pk.bytes();
            if toc {
                match parse_toc_bytes(cx, &b)? {
                    Err(_) => Ok(()),
                    Ok(_) => bad("accepted", "reference arrays that do not fit are accepted"),
                }
            } else {
                check_reject(cx, &b)
            }
        },
    ));
    v.push(super::scale::space("C07", t));
    v
}

/// pages 2, 3 and 4 with distinct titles, listed by the given series
pub fn pages(lists: &[Vec<u32>]) -> StoreIR {
    let mut spaces = vec![section_root(&lists.iter().map(|l| l.iter().map(|n| cell(*n)).collect()).collect::<Vec<_>>())];
    for n in 2..5u32 {
        let mut b = B::new();
        let t = b.para(&format!("page {n}"));
        let o = b.wrap(&[t]);
        spaces.push(page_space(n, b, &[o], None).0);
    }
    StoreIR { schema: C.section, spaces, blobs: vec![] }
}
pub fn three_pages(l: &[u32]) -> StoreIR {
    pages(&[l.to_vec()])
}
