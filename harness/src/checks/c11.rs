//! Hierarchy: section, series, pages, titles, outlines, groups, elements.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;
use std::sync::Arc;

/// ordered forests with `n` nodes, as depth sequences
fn forests(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if v.len() == n {
            out.push(v.clone());
            return;
        }
        let top = v.last().map(|d| d + 1).unwrap_or(0);
        for d in 0..=top {
            v.push(d);
            go(n, v, out);
            v.pop();
        }
    }
    go(n, &mut vec![], &mut out);
    out
}
/// build the forest given as depth sequence; `mk(i, children)` creates node i
fn grow(depths: &[usize], mk: &mut dyn FnMut(usize, &[Ex]) -> Ex) -> Vec<Ex> {
    let n = depths.len();
    let mut made: Vec<Option<Ex>> = vec![None; n];
    for i in (0..n).rev() {
        let mut kids = vec![];
        let mut j = i + 1;
        while j < n && depths[j] > depths[i] {
            if depths[j] == depths[i] + 1 {
                kids.push(made[j].unwrap());
            }
            j += 1;
        }
        made[i] = Some(mk(i, &kids));
    }
    (0..n).filter(|i| depths[*i] == 0).map(|i| made[i].unwrap()).collect()
}
/// one object of each kind of content
fn content(b: &mut B, k: usize, n: usize) -> Ex {
    match k {
        0 => b.para(&format!("p{n}")),
        1 => b.image(Some(vec![n as u8])),
        2 => b.file(&format!("f{n}"), vec![n as u8, 1]),
        3 => {
            let s = b.stroke(&[n as i64], &[2]);
            b.ink(&[s])
        }
        4 => {
            let c = b.cell(&[]);
            let r = b.row(&[c]);
            b.table(&[r], n as u32, 1)
        }
        5 => {
            let x = b.para(&format!("o{n}"));
            b.wrap(&[x])
        }
        6 => b.add(jc::AuthorContainer, vec![]),
        _ => b.add(jc::TitleNode, vec![]),
    }
}
/// a page whose one outline says which page it is
fn labelled(n: u32) -> (SpaceIR, Vec<(Ex, Vec<u8>)>) {
    let mut b = B::at(n * 100);
    let t = b.para(&format!("page {n}"));
    let o = b.wrap(&[t]);
    let (mut s, bl) = page_space(n, b, &[o], None);
    for o in &mut s.revs[0].groups[0].objs {
        if o.id == xo(PMETA) {
            o.set(p::PageLevel, PV::U32(n % 4));
        }
    }
    (s, bl)
}
fn with_pages(series: &[Vec<Cell>], n: u32) -> StoreIR {
    let mut spaces = vec![section_root(series)];
    let mut blobs = vec![];
    for i in 0..n {
        let (s, b) = labelled(10 + i);
        spaces.push(s);
        blobs.extend(b);
    }
    StoreIR { schema: C.section, spaces, blobs }
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("structure", &[jc::SectionNode, jc::SectionMetadata, jc::PageSeriesNode, jc::PageManifestNode, jc::PageMetadata, jc::PageNode, jc::TitleNode, jc::OutlineNode, jc::OutlineElementNode, jc::OutlineGroup, jc::RevisionMetadata], t == Tier::Thorough));
    let n = if deep { 7 } else { 6 };
    let fs: Vec<Vec<usize>> = (0..=n).flat_map(forests).collect();
    let fs2 = fs.clone();
    v.push(Space::new(
        "outline-shapes",
        format!("every ordered forest of up to {n} outline items below an outline with every assignment of element or group to its nodes ({} shapes)", fs.len()),
        move |ch, cx| {
            let f = ch.pick("shape", &fs2);
            let kinds = ch.choose("kinds", 1 << f.len());
            let mut b = B::new();
            let items = grow(f, &mut |i, kids| {
                if kinds >> i & 1 == 1 { b.group(10 + i as u8, kids) } else { b.element(20 + i as u8, &[], kids) }
            });
            let o = b.outline(&items);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    let n2 = if deep { 5 } else { 4 };
    let fs2: Vec<Vec<usize>> = fs.iter().filter(|f| f.len() <= n2).cloned().collect();
    v.push(Space::new(
        "outline-contents",
        format!("every forest of up to {n2} elements, each with none, one or two paragraphs, a list, or a paragraph and a list (all distinct)"),
        move |ch, cx| {
            let f = ch.pick("shape", &fs2);
            let c: Vec<usize> = f.iter().map(|_| ch.choose("contents", 5)).collect();
            let mut b = B::new();
            let items = grow(f, &mut |i, kids| {
                let m = [0, 1, 2, 0, 1][c[i]];
                let ps: Vec<Ex> = (0..m).map(|k| b.para(&format!("{i}/{k}"))).collect();
                let e = b.element(i as u8, &ps, kids);
                if c[i] >= 3 {
                    let l = b.list();
                    b.set(l, p::ListRestart, PV::U32(i as u32));
                    b.set(e, p::ListNodes, PV::Oids(vec![l]));
                    b.set(e, p::ListSpacingMu, PV::f(i as f32));
                }
                e
            });
            let o = b.outline(&items);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    let n3 = if deep { 5 } else { 4 };
    v.push(Space::new(
        "content-sequences",
        format!("every sequence of up to {n3} contents of 8 kinds (all known ones, an outline, kinds that are no content) in an outline element or directly on a page"),
        move |ch, cx| {
            let mut b = B::new();
            let on_page = ch.flag("page");
            let len = ch.choose("contents", n3 + 1);
            let xs: Vec<Ex> = (0..len)
                .map(|i| {
                    let k = ch.choose("kind", 8);
                    content(&mut b, k, i)
                })
                .collect();
            let ir = if on_page {
                section1(b, &xs, None)
            } else {
                let o = b.wrap(&xs);
                section1(b, &[o], None)
            };
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "unknown-kinds",
        "one of three contents on a page or in an element is an object of each of the 30 known kinds (without properties), or of a kind whose identifier differs from a known one in one bit: kinds that are not content there are reported as unknown beside undisturbed siblings; unknown identifiers are reported as unknown or refuse the file",
        move |ch, cx| {
            let mut b = B::new();
            let on_page = ch.flag("page");
            let base = ch.pick("kind", jc::ALL);
            let bit = ch.choose("bit", 33);
            let j = if bit < 32 { base ^ 1 << bit } else { *base };
            let mut xs = vec![content(&mut b, 1, 0), content(&mut b, if on_page { 5 } else { 0 }, 1), content(&mut b, 2, 2)];
            let at = ch.choose("place", 3);
            let x = b.add(j, vec![]);
            xs[at] = x;
            let mut ir = if on_page {
                section1(b, &xs, None)
            } else {
                let o = b.wrap(&xs);
                section1(b, &[o], None)
            };
            if jc::ALL.contains(&j) {
                return check1(cx, &ir);
            }
            let bytes = ir.build(&BuildOpts::default()).bytes();
            cx.mix(&bytes);
            let got = parse_buf(cx, &bytes, NAME)?;
            ir.obj(1, x).jcid = jc::AuthorContainer;
            if got.is_err() {
                return Ok(());
            }
            judge(cx, &expect_section(&ir, NAME), &got)
        },
    ));
    let (ms, mp) = if deep { (4, 4) } else { (3, 3) };
    v.push(Space::new(
        "series",
        format!("every section of up to {ms} page series with up to {mp} pages each drawn from 3 distinct pages (repeats included)"),
        move |ch, cx| {
            let k = ch.choose("series", ms + 1);
            let mut s = vec![];
            for _ in 0..k {
                let n = ch.choose("pages", if k <= 3 { mp + 1 } else { 3 });
                s.push((0..n).map(|_| cell(10 + ch.choose("page", 3) as u32)).collect::<Vec<_>>());
            }
            check1(cx, &with_pages(&s, 3))
        },
    ));
    v.push(Space::new(
        "series-references",
        "3 page series referred to in every order and with repeats, each with 0..=2 pages, holding titles, levels, authors and heights of their own; with one page space missing, without metadata or not referred to",
        move |ch, cx| {
            let mut ir = with_pages(&[vec![cell(10)], vec![cell(11), cell(12)], vec![]], 3);
            let order: Vec<Ex> = (0..ch.choose("references", 4)).map(|_| xo(980_010 + ch.choose("series", 3) as u32)).collect();
            ir.obj(0, xo(SEC)).set(p::ElementChildNodes, PV::Oids(order));
            for i in 0..3u32 {
                let i2 = 1 + i as usize;
                ir.obj(i2, xo(PAGE)).set(p::Author, PV::s(&format!("author {i}")));
                ir.obj(i2, xo(PAGE)).set(p::PageHeight, PV::f(i as f32));
            }
            let page = 1 + ch.choose("page", 3);
            match ch.choose("change", 8) {
                0 => {}
                1 => {
                    ir.spaces.remove(page);
                }
                2 => {
                    ir.spaces[page].revs[0].roots.retain(|r| r.0 != 2);
                }
                3 => {
                    ir.spaces[page].revs[0].roots.retain(|r| r.0 != 1);
                }
                4 => {
                    ir.obj(page, xo(PMAN)).set(p::ContentChildNodes, PV::Oids(vec![]));
                }
                5 => {
                    ir.obj(page, xo(PMAN)).unset(p::ContentChildNodes);
                }
                6 => {
                    ir.obj(page, xo(PAGE)).unset(p::Author).unset(p::PageHeight);
                    ir.obj(page, xo(PMETA)).unset(p::PageLevel);
                }
                _ => {
                    // roots swapped
                    ir.spaces[page].revs[0].roots = vec![(1, xo(PMETA)), (2, xo(PMAN))];
                }
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "titles",
        "a page with 0..=2 title references, a title of 0..=2 outlines with 0..=2 items of text, empty text or an image, alignments and offsets, and 0..=2 outlines of content: title, contents and the derived title text",
        move |ch, cx| {
            let mut b = B::new();
            let mk = |b: &mut B, ch: &mut Ch, tag: &str, items: usize| {
                let n = ch.choose("items", items + 1);
                let mut es = vec![];
                for i in 0..n {
                    let e = match ch.choose("item", 5) {
                        0 => {
                            let x = b.para(&format!("{tag}{i}"));
                            b.element(1, &[x], &[])
                        }
                        1 => {
                            let x = b.para("");
                            b.element(1, &[x], &[])
                        }
                        2 => {
                            let x = b.image(None);
                            let y = b.para("behind");
                            b.element(1, &[x, y], &[])
                        }
                        3 => b.element(1, &[], &[]),
                        _ => {
                            let x = b.para("in group");
                            let e = b.element(1, &[x], &[]);
                            b.group(2, &[e])
                        }
                    };
                    es.push(e);
                }
                b.outline(&es)
            };
            let titles = ch.choose("titles", 3);
            let mut ts = vec![];
            for k in 0..titles {
                let mut os = vec![];
                for _ in 0..ch.choose("outlines", if k == 0 { 3 } else { 1 }) {
                    os.push(mk(&mut b, ch, "t", if deep { 2 } else { 1 }));
                }
                let t = b.title(&os);
                b.set(t, p::OffsetFromParentHoriz, PV::f(k as f32 + 0.5));
                if ch.flag("aligned") {
                    b.set(t, p::LayoutAlignmentInParent, PV::U32(0x10001));
                    b.set(t, p::LayoutAlignmentSelf, PV::U32(0x80002));
                }
                ts.push(t);
            }
            let mut cs = vec![];
            for _ in 0..ch.choose("contents", 3) {
                if ch.flag("image") {
                    cs.push(b.image(None));
                } else {
                    cs.push(mk(&mut b, ch, "c", 1));
                }
            }
            let mut ir = section1(b, &cs, None);
            if titles > 0 {
                ir.obj(1, xo(PAGE)).set(p::StructureElementChildNodes, PV::Oids(ts));
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "shared",
        "an outline over 3 elements, a group and 2 paragraphs in which up to 4 references are made to any of them in any order (shared items are reproduced once per reference)",
        move |ch, cx| {
            let mut b = B::new();
            let ps = [b.para("one"), b.para("two")];
            let pick = |ch: &mut Ch, v: &[Ex], n: usize| -> Vec<Ex> { (0..ch.choose("count", n + 1)).map(|_| *ch.pick("of", v)).collect() };
            let c1 = pick(ch, &ps, 2);
            let e1 = b.element(1, &c1, &[]);
            let k2 = pick(ch, &[e1], 1);
            let e2 = b.element(2, &ps[1..], &k2);
            let kg = pick(ch, &[e1, e2], 2);
            let g = b.group(3, &kg);
            let k3 = pick(ch, &[e1, e2, g], 2);
            let e3 = b.element(4, &[], &k3);
            let top = pick(ch, &[e1, g, e3], if deep { 4 } else { 3 });
            let o = b.outline(&top);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    let base = Arc::new(rich());
    let mut ids: Vec<(usize, Ex)> = vec![];
    for (i, s) in base.spaces.iter().enumerate() {
        for o in s.revs.iter().flat_map(|r| r.groups.iter()).flat_map(|g| g.objs.iter()) {
            if !ids.contains(&(i, o.id)) {
                ids.push((i, o.id));
            }
        }
    }
    let ids = Arc::new(ids);
    let (b, l) = (base.clone(), ids.clone());
    v.push(Space::new(
        "missing-objects",
        "every one or two objects of a section using every kind of entity left out",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let x = ch.choose("first", l.len());
            let y = ch.choose("second", x + 1);
            for k in [x, y] {
                let (i, id) = l[k];
                for g in ir.spaces[i].revs.iter_mut().flat_map(|r| r.groups.iter_mut()) {
                    g.objs.retain(|o| o.id != id);
                }
            }
            check1(cx, &ir)
        },
    ));
    let (b, l) = (base.clone(), ids.clone());
    v.push(Space::new(
        "exchanged-kinds",
        "every object of that section given the kind of each other known kind",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let (i, id) = *ch.pick("object", &l);
            let j = *ch.pick("kind", jc::ALL);
            for o in ir.spaces[i].revs.iter_mut().flat_map(|r| r.groups.iter_mut()).flat_map(|g| g.objs.iter_mut()) {
                if o.id == id {
                    o.jcid = j;
                }
            }
            check1(cx, &ir)
        },
    ));
    let b = base.clone();
    v.push(Space::new(
        "exchanged-references",
        "every object reference of that section redirected to each other object of the section, to nothing, doubled, removed or moved to the front",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let (i, id) = *ch.pick("object", &ids);
            let all: Vec<Ex> = ids.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
            let ps = &mut ir.obj(i, id).props;
            let refs: Vec<(usize, usize)> = ps
                .iter()
                .enumerate()
                .flat_map(|(k, q)| match &q.v {
                    PV::Oid(_) => vec![(k, 0)],
                    PV::Oids(v) => (0..v.len()).map(|m| (k, m)).collect(),
                    _ => vec![],
                })
                .collect();
            if refs.is_empty() {
                return Ok(());
            }
            let (k, m) = *ch.pick("reference", &refs);
            let c = ch.choose("change", all.len() + 4);
            match &mut ps[k].v {
                PV::Oid(x) => {
                    if c < all.len() {
                        *x = all[c]
                    } else {
                        *x = xo(777_777)
                    }
                }
                PV::Oids(v) => {
                    if c < all.len() {
                        v[m] = all[c]
                    } else {
                        match c - all.len() {
                            0 => v[m] = xo(777_777),
                            1 => v.insert(m, v[m]),
                            2 => {
                                v.remove(m);
                            }
                            _ => {
                                let x = v.remove(m);
                                v.insert(0, x);
                            }
                        }
                    }
                }
                _ => unreachable!(),
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "wide",
        "an outline, group, element, element content, page, series or section with every number of distinct entries 0..=130, and 255, 256, 257, 500",
        move |ch, cx| {
            let k = ch.choose("entries", 135);
            let n = if k <= 130 { k } else { [255, 256, 257, 500][k - 131] };
            let mut b = B::new();
            let which = ch.choose("where", 7);
            let ir = match which {
                0..=2 => {
                    let es: Vec<Ex> = (0..n).map(|i| b.element(i as u8, &[], &[])).collect();
                    let o = match which {
                        0 => b.outline(&es),
                        1 => {
                            let g = b.group(1, &es);
                            b.outline(&[g])
                        }
                        _ => {
                            let g = b.element(1, &[], &es);
                            b.outline(&[g])
                        }
                    };
                    section1(b, &[o], None)
                }
                3 => {
                    let st = b.style();
                    let ps: Vec<Ex> = (0..n).map(|i| b.text(&i.to_string(), st)).collect();
                    let o = b.wrap(&ps);
                    section1(b, &[o], None)
                }
                4 => {
                    let ps: Vec<Ex> = (0..n)
                        .map(|i| {
                            let x = b.image(None);
                            b.set(x, p::DisplayedPageNumber, PV::U32(i as u32));
                            x
                        })
                        .collect();
                    section1(b, &ps, None)
                }
                5 => with_pages(&[(0..n as u32).map(|i| cell(10 + i)).collect()], n as u32),
                _ => with_pages(&(0..n as u32).map(|i| vec![cell(10 + i % 3)]).collect::<Vec<_>>(), 3),
            };
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "deep",
        "chains of elements, groups, alternating ones or tables of every depth up to 38, with a sibling before or behind at every level",
        move |ch, cx| {
            let d = ch.choose("depth", 38);
            let kind = ch.choose("kind", 4);
            let side = ch.choose("sibling", 3);
            let mut b = B::new();
            let t = b.para("leaf");
            let mut x = b.element(99, &[t], &[]);
            let mut left = if kind == 3 { d / 2 } else { d };
            while left > 0 {
                let sib = b.element(left as u8, &[], &[]);
                let kids = match side {
                    0 => vec![x],
                    1 => vec![sib, x],
                    _ => vec![x, sib],
                };
                x = match kind {
                    0 => b.element(left as u8, &[], &kids),
                    1 => b.group(left as u8, &kids),
                    2 if left % 2 == 0 => b.element(left as u8, &[], &kids),
                    2 => b.group(left as u8, &kids),
                    _ => {
                        let c = b.cell(&kids);
                        let r = b.row(&[c]);
                        let t = b.table(&[r], 1, 1);
                        b.element(left as u8, &[t], &[])
                    }
                };
                if kind == 3 && matches!(b.objs.iter().find(|o| o.id == x).unwrap().jcid, jc::OutlineGroup) {
                    break;
                }
                left -= 1;
            }
            let o = b.outline(&[x]);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(Space::new(
        "outline-attributes",
        "two outlines on a page (or one in the title), each with every subset of 8 optional attributes",
        move |ch, cx| {
            let mut b = B::new();
            let mut os = vec![];
            for k in 0..2u32 {
                let o = b.outline(&[]);
                for (i, (id, v)) in [
                    (p::ListSpacingMu, PV::f(1.0 + k as f32)),
                    (p::LayoutMaxHeight, PV::f(2.0 + k as f32)),
                    (p::LayoutMaxWidth, PV::f(3.0 + k as f32)),
                    (p::LayoutOutlineReservedWidth, PV::f(4.0 + k as f32)),
                    (p::LayoutMinimumOutlineWidth, PV::f(5.0 + k as f32)),
                    (p::IsLayoutSizeSetByUser, PV::Bool(true)),
                    (p::OffsetFromParentHoriz, PV::f(6.0 + k as f32)),
                    (p::OffsetFromParentVert, PV::f(7.0 + k as f32)),
                ]
                .into_iter()
                .enumerate()
                {
                    if if k == 0 || deep { ch.flag("present") } else { i % 2 == 0 } {
                        b.set(o, id, v);
                    }
                }
                b.set(o, p::OutlineElementChildLevel, PV::U8(200 + k as u8));
                os.push(o);
            }
            let ir = if ch.flag("title") {
                let t = b.title(&os[1..]);
                section1(b, &os[..1], Some(t))
            } else {
                section1(b, &os, None)
            };
            check1(cx, &ir)
        },
    ));
    v.push(super::c17::strings(&["title", "section name", "author", "cached title"], if deep { 3 } else { 2 }));
    v.push(super::c16::indents());
    v.push(super::c16::interference(&[6, 8, 9]));
    v.push(super::c16::foreign(&[6, 8, 9], deep));
    v.push(super::scale::space("C11", t));
    v
}
