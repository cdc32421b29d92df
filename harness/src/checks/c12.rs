//! Tables: shape, cells, columns and attributes.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

/// a distinct cell
fn plain_cell(b: &mut B, n: usize, els: usize) -> Ex {
    let es: Vec<Ex> = (0..els)
        .map(|k| {
            let t = b.para(&format!("{n}.{k}"));
            b.element(k as u8, &[t], &[])
        })
        .collect();
    let c = b.cell(&es);
    b.set(c, p::LayoutMaxWidth, PV::f(n as f32));
    c
}
fn sec(mut b: B, t: Ex) -> StoreIR {
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}
fn widths(count: u8, w: &[f32]) -> Vec<u8> {
    let mut v = vec![count];
    for f in w {
        v.extend(f.to_le_bytes());
    }
    v
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("table", &[jc::TableNode, jc::TableRowNode, jc::TableCellNode], t == Tier::Thorough));
    let (mr, mc) = if deep { (4, 4) } else { (3, 3) };
    v.push(Space::new(
        "ragged",
        format!("every table of up to {mr} rows with up to {mc} cells each, of 0..=2 elements per cell (1 beyond 6 cells), row and column counts exact, zero, one more or huge"),
        move |ch, cx| {
            let mut b = B::new();
            let nr = ch.choose("rows", mr + 1);
            let lens: Vec<usize> = (0..nr).map(|_| ch.choose("cells", mc + 1)).collect();
            let total: usize = lens.iter().sum();
            let mut k = 0;
            let mut rows = vec![];
            for l in &lens {
                let mut cs = vec![];
                for _ in 0..*l {
                    let e = if total <= if deep { 6 } else { 4 } { ch.choose("elements", 3) } else { 1 + k % 2 };
                    cs.push(plain_cell(&mut b, k, e));
                    k += 1;
                }
                rows.push(b.row(&cs));
            }
            let wide = lens.iter().copied().max().unwrap_or(0) as u32;
            let (rc, cc) = [(nr as u32, wide), (0, 0), (nr as u32 + 1, wide + 1), (u32::MAX, 0x8000_0000)][ch.choose("counts", 4)];
            let t = b.table(&rows, rc, cc);
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "sizes",
        "rectangular tables of every size 0..=24 by 0..=24 and 1x300, 300x1, 25x36",
        move |ch, cx| {
            let k = ch.choose("size", 25 * 25 + 3);
            let (r, c) = if k < 625 { (k / 25, k % 25) } else { [(1, 300), (300, 1), (25, 36)][k - 625] };
            let mut b = B::new();
            let mut rows = vec![];
            for i in 0..r {
                let cs: Vec<Ex> = (0..c)
                    .map(|j| {
                        let x = b.cell(&[]);
                        b.set(x, p::LayoutMaxWidth, PV::f((i * 1000 + j) as f32));
                        x
                    })
                    .collect();
                rows.push(b.row(&cs));
            }
            let t = b.table(&rows, r as u32, c as u32);
            b.set(t, p::TableColumnWidths, PV::Vec(widths(c as u8, &(0..c).map(|j| j as f32).collect::<Vec<_>>())));
            let mut lk = vec![c as u8];
            lk.extend((0..c).map(|j| j as u8));
            b.set(t, p::TableColumnsLocked, PV::Vec(lk));
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "cell-attributes",
        "a 2x2 table in which every cell has or lacks a background, a width limit and one of 3 indent lists (values distinct per cell)",
        move |ch, cx| {
            let mut b = B::new();
            let mut cs = vec![];
            for i in 0..4 {
                let c = plain_cell(&mut b, i, 1);
                if ch.flag("background") {
                    b.set(c, p::CellBackgroundColor, PV::U32(0x0102_0304 * (i as u32 + 1)));
                }
                if !ch.flag("width") {
                    b.o(c).unset(p::LayoutMaxWidth);
                }
                let l = [vec![], vec![i as f32], vec![0.5, i as f32, 9.0]][if deep || i < 2 { ch.choose("indents", 3) } else { i % 3 }].clone();
                b.set(c, p::RgOutlineIndentDistance, PV::Vec(indent_bytes(&l)));
                cs.push(c);
            }
            let r = [b.row(&cs[..2]), b.row(&cs[2..])];
            let t = b.table(&r, 2, 2);
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "columns",
        "column widths of 0..=40 entries (data absent, empty, exact, with 1..=3 trailing bytes) with a stored count that is exact, zero or one off, and column locks of 0..=40 bytes likewise",
        move |ch, cx| {
            let mut b = B::new();
            let t = b.table(&[], 0, 0);
            let which = ch.flag("locks");
            let n = ch.choose("entries", 41);
            let cnt = (n as i32 + [0, -1, 1, -(n as i32)][ch.choose("count", 4)]).clamp(0, 255) as u8;
            if which {
                let mut l = vec![cnt];
                l.extend((0..n).map(|i| (i * 37) as u8));
                b.set(t, p::TableColumnsLocked, PV::Vec(l));
            } else {
                let mut w = widths(cnt, &(0..n).map(|i| i as f32 * 1.5 - 2.0).collect::<Vec<_>>());
                w.extend(vec![7; ch.choose("trailing", 4)]);
                b.set(t, p::TableColumnWidths, PV::Vec(w));
            }
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "attributes",
        "every subset of the table's optional attributes (widths, locks, borders on or off, both alignments, tags) on each of two tables of one page",
        move |ch, cx| {
            let mut b = B::new();
            let d = full_def(&mut b, "x", 2);
            let mut ts = vec![];
            for k in 0..2u32 {
                let c = plain_cell(&mut b, k as usize, 1);
                let r = b.row(&[c]);
                let t = b.table(&[r], 1, 1);
                if ch.flag("widths") {
                    b.set(t, p::TableColumnWidths, PV::Vec(widths(1, &[k as f32 + 0.5])));
                }
                if ch.flag("locks") {
                    b.set(t, p::TableColumnsLocked, PV::Vec(vec![1, k as u8 + 1]));
                }
                match ch.choose("borders", 3) {
                    0 => {}
                    x => b.set(t, p::TableBordersVisible, PV::Bool(x == 1)),
                }
                if ch.flag("align parent") {
                    b.set(t, p::LayoutAlignmentInParent, PV::U32(k + 1));
                }
                if ch.flag("align self") {
                    b.set(t, p::LayoutAlignmentSelf, PV::U32(0x10000 | (k + 2)));
                }
                if ch.flag("tags") {
                    b.set(t, p::NoteTags, tags(vec![tagset(Some(d), 1 + k as u16, k, None)]));
                }
                ts.push(t);
            }
            let o = b.wrap(&ts);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(Space::new(
        "nested",
        "tables nested up to 4 deep through any of the 4 cells of a 2x2 table, directly or below an element's child or an outline group, each level with its own counts",
        move |ch, cx| {
            let mut b = B::new();
            let depth = ch.choose("depth", 5);
            let mut x = b.para("leaf");
            for l in 0..=depth {
                let e = b.element(1, &[x], &[]);
                let e = match ch.choose("via", 3) {
                    0 => e,
                    1 => b.element(2, &[], &[e]),
                    _ => {
                        let g = b.group(3, &[e]);
                        b.element(2, &[], &[g])
                    }
                };
                let at = ch.choose("cell", if depth < 3 { 4 } else { 2 });
                let cs: Vec<Ex> = (0..4).map(|i| if i == at { b.cell(&[e]) } else { plain_cell(&mut b, 10 * l + i, i % 2) }).collect();
                let r = [b.row(&cs[..2]), b.row(&cs[2..])];
                x = b.table(&r, 2 + l as u32, 20 + l as u32);
            }
            check1(cx, &sec(b, x))
        },
    ));
    v.push(Space::new(
        "deep-tables",
        "tables nested 1..=42 deep in the first or last cell of each level, directly, through children or through groups, with plain or tabular neighbours, sizes and colours changing from level to level",
        move |ch, cx| {
            let mut b = B::new();
            let depth = 1 + ch.choose("depth", 42);
            let via = ch.choose("via", 3);
            let last = ch.flag("last cell");
            let tabular = ch.flag("tables beside");
            let mut x = b.para("leaf");
            for l in 0..depth {
                let e = b.element(1, &[x], &[]);
                let e = match via {
                    0 => e,
                    1 => b.element(2, &[], &[e]),
                    _ => {
                        let g = b.group(3, &[e]);
                        b.element(2, &[], &[g])
                    }
                };
                let inner = b.cell(&[e]);
                if l % 3 == 1 {
                    b.set(inner, p::CellBackgroundColor, PV::U32(0x0102_0300 + l as u32));
                }
                let side = if tabular {
                    let c = plain_cell(&mut b, 10 * l, 1);
                    let r = b.row(&[c]);
                    let t = b.table(&[r], 1, 1);
                    let e = b.element(1, &[t], &[]);
                    b.cell(&[e])
                } else {
                    plain_cell(&mut b, 10 * l, l % 2)
                };
                let r = if last {
                    let r0 = b.row(&[side]);
                    [r0, b.row(&[inner])].to_vec()
                } else {
                    [b.row(&[inner, side])].to_vec()
                };
                x = b.table(&r, 2 + l as u32, 20 + l as u32);
            }
            check1(cx, &sec(b, x))
        },
    ));
    v.push(Space::new(
        "cell-contents",
        "a 1x2 table whose cells hold up to 2 elements of any of 7 kinds of content (text, image, file, ink, table, list, unknown) with or without children",
        move |ch, cx| {
            let mut b = B::new();
            let mut cs = vec![];
            for i in 0..2u8 {
                let mut es = vec![];
                for j in 0..ch.choose("elements", 3) {
                    let kids = if ch.flag("child") { vec![b.element(5, &[], &[])] } else { vec![] };
                    let e = match ch.choose("content", 7) {
                        0 => {
                            let x = b.para(&format!("{i}{j}"));
                            b.element(1, &[x], &kids)
                        }
                        1 => {
                            let x = b.image(Some(vec![i, j as u8]));
                            b.element(1, &[x], &kids)
                        }
                        2 => {
                            let x = b.file("n", vec![i, j as u8, 3]);
                            b.element(1, &[x], &kids)
                        }
                        3 => {
                            let s = b.stroke(&[1, 2], &[3, j as i64]);
                            let x = b.ink(&[s]);
                            b.element(1, &[x], &kids)
                        }
                        4 => {
                            let x = full_table(&mut b, None);
                            b.element(1, &[x], &kids)
                        }
                        5 => {
                            let l = full_list(&mut b);
                            let e = b.element(1, &[], &kids);
                            b.set(e, p::ListNodes, PV::Oids(vec![l]));
                            e
                        }
                        _ => {
                            let x = b.add(jc::AuthorContainer, vec![]);
                            b.element(1, &[x], &kids)
                        }
                    };
                    es.push(e);
                }
                cs.push(b.cell(&es));
            }
            let r = b.row(&cs);
            let t = b.table(&[r], 1, 2);
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "shared",
        "every 2x2 table over a pool of 2 rows, 3 cells and 2 elements in which rows, cells and elements are referred to repeatedly and in any order",
        move |ch, cx| {
            let mut b = B::new();
            let t1 = b.para("one");
            let t2 = b.para("two");
            let es = [b.element(1, &[t1], &[]), b.element(2, &[t2], &[])];
            let mut pool = vec![];
            for _ in 0..3 {
                let n = ch.choose("elements", 3);
                let l: Vec<Ex> = (0..n).map(|_| es[ch.choose("element", 2)]).collect();
                pool.push(b.cell(&l));
            }
            let rows: Vec<Ex> = (0..2)
                .map(|_| {
                    let l: Vec<Ex> = (0..2).map(|_| pool[ch.choose("cell", 3)]).collect();
                    b.row(&l)
                })
                .collect();
            let order = [rows[ch.choose("row", 2)], rows[ch.choose("row", 2)]];
            let t = b.table(&order, 2, 2);
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "faults",
        "a row, cell or element reference at any of the places of a 2x2 table pointing to nothing or to an object of each known kind; and each attribute of table, row and cell missing",
        move |ch, cx| {
            let mut b = B::new();
            let cs: Vec<Ex> = (0..4).map(|i| plain_cell(&mut b, i, 1)).collect();
            let r = [b.row(&cs[..2]), b.row(&cs[2..])];
            let t = b.table(&r, 2, 2);
            let hosts = [t, r[0], r[1], cs[0], cs[1], cs[2], cs[3]];
            let h = *ch.pick("host", &hosts);
            if ch.flag("attribute") {
                let n = b.o(h).props.len();
                let k = ch.choose("missing", n);
                b.o(h).props.remove(k);
                return check1(cx, &sec(b, t));
            }
            let k = ch.choose("kind", jc::ALL.len() + 1);
            let bad = if k < jc::ALL.len() { b.add(jc::ALL[k], vec![]) } else { xo(777_777) };
            let n = match b.o(h).props.iter().find(|q| q.id == p::ElementChildNodes & 0x3ffffff).map(|q| &q.v) {
                Some(PV::Oids(v)) => v.len(),
                _ => 0,
            };
            let at = ch.choose("place", n + 1);
            let q = b.o(h).props.iter_mut().find(|q| q.id == p::ElementChildNodes & 0x3ffffff).unwrap();
            if let PV::Oids(v) = &mut q.v {
                if at < n {
                    v[at] = bad;
                } else {
                    v.push(bad);
                }
            }
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "revisions",
        "a 2x2 table of which any subset of table, rows and cells was rewritten (rows in another order, other counts, other cells) in a newer revision",
        move |ch, cx| {
            let mut b = B::new();
            let cs: Vec<Ex> = (0..4).map(|i| plain_cell(&mut b, i, 1)).collect();
            let r = [b.row(&cs[..2]), b.row(&cs[2..])];
            let t = b.table(&r, 2, 2);
            let mut new = vec![];
            let mut nb = b.clone();
            if ch.flag("table") {
                nb.set(t, p::ElementChildNodes, PV::Oids(vec![r[1], r[0]]));
                nb.set(t, p::RowCount, PV::U32(7));
                new.push(nb.o(t).clone());
            }
            for (i, x) in r.iter().enumerate() {
                if ch.flag("row") {
                    nb.set(*x, p::ElementChildNodes, PV::Oids(vec![cs[3 - i], cs[i], cs[2]]));
                    new.push(nb.o(*x).clone());
                }
            }
            for x in &cs {
                if ch.flag("cell") {
                    nb.set(*x, p::CellBackgroundColor, PV::U32(0x55));
                    nb.o(*x).unset(p::LayoutMaxWidth);
                    new.push(nb.o(*x).clone());
                }
            }
            let mut ir = sec(b, t);
            let sp = &mut ir.spaces[1];
            let base = sp.revs[0].rev;
            let roots = sp.revs[0].roots.clone();
            sp.revs.insert(
                0,
                RevIR { rev: Ex::new(GREV, 5001), manifest: eid(5002), base, groups: vec![GroupIR { id: eid(5003), objs: new }], roots },
            );
            check1(cx, &ir)
        },
    ));
    v.push(super::c16::indents());
    v.push(super::c16::interference(&[2]));
    v.push(super::c16::foreign(&[2], deep));
    v.push(super::scale::space("C12", t));
    v
}
