//! Attribute encodings: every stored value of every attribute maps to its one
//! documented meaning.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;
use crate::checks::c08::{list, lists, Path};
use std::sync::Arc;

/// optional attributes that the full entities do not set already
fn opt_props(jcid: u32) -> Vec<(u32, PV)> {
    let t = || PV::Bool(true);
    let f = || PV::f(1.75);
    match jcid {
        jc::PageNode => vec![
            (p::PageMarginOriginX, f()),
            (p::PageMarginOriginY, f()),
            (p::PageMarginRight, f()),
            (p::PageMarginTop, f()),
            (p::PageMarginBottom, f()),
        ],
        jc::OutlineNode => vec![
            (p::LayoutTightAlignment, t()),
            (p::Deletable, t()),
            (p::IsTitleDate, t()),
            (p::CannotBeSelected, t()),
            (p::IsTitleText, t()),
            (p::IsReadOnly, t()),
            (p::DescendantsCannotBeMoved, t()),
            (p::LayoutTightLayout, t()),
        ],
        jc::OutlineElementNode => vec![
            (p::OutlineElementRtl, t()),
            (p::Deletable, t()),
            (p::CannotBeSelected, t()),
            (p::IsTitleText, t()),
            (p::ListSpacingMu, f()),
        ],
        jc::RichTextNode => vec![
            (p::IsTitleTime, t()),
            (p::IsBoilerText, t()),
            (p::IsTitleDate, t()),
            (p::ReadingOrderRtl, t()),
        ],
        jc::ParagraphStyleObject => vec![(p::HyperlinkProtected, t())],
        jc::StrokePropertiesNode => vec![(p::InkIgnorePressure, t())],
        jc::TitleNode => vec![(p::LayoutAlignmentInParent, PV::U32(0x80009)), (p::LayoutAlignmentSelf, PV::U32(0x1000b))],
        jc::PageMetadata => vec![
            (p::SchemaRevisionInOrderToRead, PV::U32(1)),
            (p::SchemaRevisionInOrderToWrite, PV::U32(1)),
        ],
        jc::PageSeriesNode => vec![(p::TopologyCreationTimeStamp, PV::U64(5))],
        jc::IFrameNode => vec![],
        _ => vec![],
    }
}
/// one small section per kind of entity, every attribute present
pub fn minis() -> Vec<StoreIR> {
    let mut out = vec![];
    let mk = |f: &dyn Fn(&mut B) -> (Vec<Ex>, Option<Ex>)| {
        let mut b = B::new();
        let (c, t) = f(&mut b);
        section1(b, &c, t)
    };
    out.push(mk(&|b| {
        let t = rich_text(b);
        (vec![b.wrap(&[t])], None)
    }));
    out.push(mk(&|b| {
        let t = ink_text(b);
        (vec![b.wrap(&[t])], None)
    }));
    out.push(mk(&|b| {
        let t = full_table(b, None);
        (vec![b.wrap(&[t])], None)
    }));
    out.push(mk(&|b| (vec![full_image(b, vec![1, 2], None)], None)));
    out.push(mk(&|b| (vec![full_file(b, vec![1, 2], None)], None)));
    out.push(mk(&|b| (vec![full_ink(b)], None)));
    out.push(mk(&|b| {
        let l = full_list(b);
        let g = b.group(3, &[]);
        let e = b.element(2, &[], &[g]);
        b.set(e, p::ListNodes, PV::Oids(vec![l]));
        let o = b.outline(&[e]);
        for (id, v) in [
            (p::ListSpacingMu, PV::f(0.5)),
            (p::LayoutAlignmentInParent, PV::U32(1)),
            (p::LayoutAlignmentSelf, PV::U32(1)),
            (p::LayoutMaxHeight, PV::f(1.0)),
            (p::LayoutMaxWidth, PV::f(2.0)),
            (p::LayoutOutlineReservedWidth, PV::f(3.0)),
            (p::LayoutMinimumOutlineWidth, PV::f(4.0)),
            (p::IsLayoutSizeSetByUser, PV::Bool(true)),
            (p::OffsetFromParentHoriz, PV::f(5.0)),
            (p::OffsetFromParentVert, PV::f(6.0)),
        ] {
            b.set(o, id, v);
        }
        (vec![o], None)
    }));
    out.push(mk(&|b| {
        let i = b.image(None);
        let d = full_def(b, "To Do", 3);
        b.set(i, p::NoteTags, tags(vec![tagset(Some(d), 5, 1, Some(2)), tagset(None, 2, 1, None)]));
        (vec![i], None)
    }));
    out.push(mk(&|b| {
        let t = b.para("T");
        let o = b.wrap(&[t]);
        let t = b.title(&[o]);
        (vec![], Some(t))
    }));
    let base = rich();
    let mut last = mk(&|_| (vec![], None));
    for id in [xo(PAGE), xo(PMETA)] {
        let mut b2 = base.clone();
        for q in b2.obj(1, id).props.clone() {
            if !matches!(q.v, PV::Oid(_) | PV::Oids(_)) && !last.obj(1, id).props.iter().any(|x| x.id == q.id) {
                last.obj(1, id).props.push(q);
            }
        }
    }
    for q in base.clone().obj(0, xo(SMETA)).props.clone() {
        if !last.obj(0, xo(SMETA)).props.iter().any(|x| x.id == q.id) {
            last.obj(0, xo(SMETA)).props.push(q);
        }
    }
    out.push(last);
    for ir in &mut out {
        for s in &mut ir.spaces {
            for o in s.revs.iter_mut().flat_map(|r| r.groups.iter_mut()).flat_map(|g| g.objs.iter_mut()) {
                for (id, v) in opt_props(o.jcid) {
                    if !o.props.iter().any(|q| q.id == id & 0x3ffffff) {
                        o.set(id, v);
                    }
                }
            }
        }
    }
    out
}
/// one place per (kind of object, nesting, property)
#[derive(Clone)]
pub struct Slot {
    pub mini: usize,
    pub path: Path,
    pub prop: usize,
}
pub fn slots(ms: &[StoreIR], want: impl Fn(&PV) -> bool) -> Vec<Slot> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for (mini, ir) in ms.iter().enumerate() {
        for path in lists(ir) {
            let mut ir = ir.clone();
            let j = ir.obj(path.0, path.1).jcid;
            let nest = path.2.len();
            for (prop, q) in list(&mut ir, &path).iter().enumerate() {
                if want(&q.v) && seen.insert((j, nest, q.id, mini < 2)) {
                    out.push(Slot { mini, path: path.clone(), prop });
                }
            }
        }
    }
    out
}
pub fn at<'a>(ir: &'a mut StoreIR, s: &Slot) -> &'a mut Prop {
    &mut list(ir, &s.path)[s.prop]
}
/// 32-bit values: enumerations, single bytes over three backgrounds, single
/// bits, pairs of bits and boundaries
fn dwords(own: u32, deep: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=if deep { 0x1_ffff } else { 0x3ff }).collect();
    for sh in [0, 8, 16, 24] {
        for b in 0..256u32 {
            for bg in [0u32, u32::MAX, own, 0x7f7f_7f7f] {
                v.push(bg & !(0xff << sh) | b << sh);
            }
        }
    }
    for i in 0..32 {
        v.push(!(1u32 << i));
        v.push((1u64 << i) as u32 - 1);
        v.push(own ^ 1 << i);
        for j in 0..32 {
            v.push(1 << i | 1 << j);
            if deep {
                for k in 0..32 {
                    v.push(1 << i | 1 << j | 1 << k);
                    v.push(!(1 << i | 1 << j | 1 << k));
                }
            }
        }
    }
    for f in [1.0f32, -1.0, 0.1, 1e-40, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 0.5, 72.0, 36.0, -0.0, 3.4e5] {
        v.push(f.to_bits());
    }
    for r in [0x9000_0000u32, 0x2_0026, 0x2_0027, 0x1_0000] {
        v.extend(r.wrapping_sub(40)..r.wrapping_add(40));
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// all the sections of `minis`
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
/// any two attributes of a whole section changed at once
pub fn interference(which: &[usize]) -> Space {
    let m: Vec<StoreIR> = minis().into_iter().enumerate().filter(|x| which.contains(&x.0)).map(|x| x.1).collect();
    let all: Vec<Vec<(Path, usize)>> = m
        .iter()
        .map(|ir| {
            let mut ir = ir.clone();
            let mut out = vec![];
            for q in lists(&ir.clone()) {
                let n = list(&mut ir, &q).len();
                out.extend((0..n).map(|i| (q.clone(), i)));
            }
            out
        })
        .collect();
    let most = all.iter().map(|a| a.len()).max().unwrap_or(0);
    Space::new(
        "interference",
        format!("any two of the up to {most} attributes of {} sections (of the same or of different objects), each missing or with one of 3 other values", m.len()),
        move |ch, cx| {
            let mini = ch.choose("section", m.len());
            let l = &all[mini];
            let a = ch.choose("first", l.len());
            let b = ch.choose("second", a + 1);
            let mut ir = m[mini].clone();
            // of one object, the later one is changed first
            for k in if b < a { vec![a, b] } else { vec![a] } {
                let (q, i) = &l[k];
                let ps = list(&mut ir, q);
                let how = ch.choose("value", 4);
                match (&mut ps[*i].v, how) {
                    (_, 3) => {
                        ps.remove(*i);
                    }
                    (PV::Bool(x), 0) => *x = !*x,
                    (PV::U8(x), h) => *x = [*x ^ 1, *x ^ 0x80, *x ^ 2][h],
                    (PV::U16(x), h) => *x = [*x ^ 1, *x ^ 0x8000, *x ^ 2][h],
                    (PV::U32(x), h) => *x = [*x ^ 1, *x ^ 0x8000_0000, *x ^ 0x0002_0000][h],
                    (PV::U64(x), h) => *x = [*x ^ 1, *x ^ 1 << 63, *x ^ 1 << 32][h],
                    (PV::Vec(x), h) if h == 0 || x.len() < 2 => x.clear(),
                    (PV::Vec(x), h) => x[h - 1] ^= 3,
                    (PV::Oids(x), 0) => x.clear(),
                    (PV::Oids(x), 1) => x.reverse(),
                    (PV::Oids(x), 2) => {
                        let y = x.clone();
                        x.extend(y)
                    }
                    (PV::Vals(_, x), 0) => x.clear(),
                    (PV::Vals(_, x), 1) => x.reverse(),
                    (PV::Vals(_, x), 2) => {
                        x.pop();
                    }
                    _ => return Ok(()),
                }
            }
            check1(cx, &ir)
        },
    )
}
/// lists of indentation distances
pub fn indents() -> Space {
    Space::new(
        "indents",
        "an outline or cell indent list of any count 0..=255 in a buffer one float short, exact or one float long, with 4 patterns of the reserved bytes",
        move |ch, cx| {
            let n = ch.choose("count", 256);
            let have = n as i64 + ch.choose("length", 3) as i64 - 1;
            let pad = *ch.pick("reserved", &[0u8, 1, 0x80, 0xff]);
            let mut d = vec![n as u8, pad, pad, pad];
            for i in 0..have.max(0) {
                d.extend((i as f32 * 0.75 - 3.0).to_le_bytes());
            }
            if have < 0 {
                d.truncate(ch.choose("cut", 4));
            }
            let mut b = B::new();
            let o = if ch.flag("cell") {
                let c = b.cell(&[]);
                b.set(c, p::RgOutlineIndentDistance, PV::Vec(d));
                let r = b.row(&[c]);
                let t = b.table(&[r], 1, 1);
                b.wrap(&[t])
            } else {
                let o = b.outline(&[]);
                b.set(o, p::RgOutlineIndentDistance, PV::Vec(d));
                o
            };
            check1(cx, &section1(b, &[o], None))
        },
    )
}
/// a value of the kind the property number calls for
fn plausible(id: u32, k: usize, other: Ex) -> Option<PV> {
    Some(match id >> 26 & 0x1f {
        1 => PV::Empty,
        2 => PV::Bool(k == 0),
        3 => PV::U8([1, 0][k]),
        4 => PV::U16([1, 0][k]),
        5 => PV::U32([0x4000_0000, 0][k]),
        6 => PV::U64([1 << 60, 0][k]),
        7 => PV::Vec([utf16(&[0x7a, 0x7a, 0x7a, 0x7a, 0x7a, 0x7a, 0x7a, 0x7a]), vec![0; 16]][k].clone()),
        8 => PV::Oid([other, Ex::NIL][k]),
        9 => PV::Oids([vec![other], vec![]][k].clone()),
        0xa => PV::Osid([Cell(other, other), Cell::NIL][k]),
        0xb => PV::Osids([vec![Cell(other, other)], vec![]][k].clone()),
        _ => return None,
    })
}
/// a property the library knows, on an object that does not have it
pub fn foreign(which: &[usize], deep: bool) -> Space {
    let m: Vec<StoreIR> = minis().into_iter().enumerate().filter(|x| which.contains(&x.0)).map(|x| x.1).collect();
    let mut seen = std::collections::HashSet::new();
    let all: Vec<Vec<Path>> = m
        .iter()
        .map(|ir| {
            let mut ir = ir.clone();
            lists(&ir.clone())
                .into_iter()
                .filter(|q| {
                    let ids: Vec<u32> = list(&mut ir, q).iter().map(|x| x.id).collect();
                    let j = ir.obj(q.0, q.1).jcid;
                    deep || seen.insert((j, q.2.len(), ids))
                })
                .collect()
        })
        .collect();
    Space::new(
        "foreign-attributes",
        format!(
            "{} sections, each object or nested set: each of {} known properties it does not have added in front or at the end with 2 values, all attributes kept or any one of them removed",
            m.len(),
            p::ALL.len()
        ),
        move |ch, cx| {
            let i = ch.choose("section", m.len());
            let q = ch.pick("object", &all[i]);
            let id = *ch.pick("property", p::ALL);
            let mut ir = m[i].clone();
            let other = ir.spaces[q.0].revs[0].groups[0].objs[0].id;
            let l = list(&mut ir, q);
            if l.iter().any(|x| x.id == id & 0x3ffffff) {
                return Ok(());
            }
            let Some(v) = plausible(id, ch.choose("value", 2), other) else { return Ok(()) };
            let gone = ch.choose("removed", l.len() + 1);
            if gone < l.len() {
                l.remove(gone);
            }
            let at = if ch.flag("end") { l.len() } else { 0 };
            l.insert(at, Prop::new(id, v));
            check1(cx, &ir)
        },
    )
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let ms = Arc::new(minis());
    let mut v = vec![];
    let m = ms.clone();
    let ss = slots(&ms, |v| matches!(v, PV::Bool(_) | PV::U8(_) | PV::U16(_)));
    v.push(Space::new(
        "small-values",
        format!("every one of the 2, 256 or 65536 values of each of the {} boolean, 8- and 16-bit attributes of every kind of object", ss.len()),
        move |ch, cx| {
            let s = ch.pick("attribute", &ss);
            let mut ir = m[s.mini].clone();
            let q = at(&mut ir, s);
            q.v = match q.v {
                PV::Bool(_) => PV::Bool(ch.flag("value")),
                PV::U8(_) => PV::U8(ch.choose("value", 256) as u8),
                _ => PV::U16(ch.choose("value", 65536) as u16),
            };
            check1(cx, &ir)
        },
    ));
    let m = ms.clone();
    let ss = slots(&ms, |v| matches!(v, PV::U32(_)));
    let ds: Vec<Vec<u32>> = ss
        .iter()
        .map(|s| {
            let mut ir = ms[s.mini].clone();
            match at(&mut ir, s).v {
                PV::U32(x) => dwords(x, deep),
                _ => unreachable!(),
            }
        })
        .collect();
    v.push(Space::new(
        "dwords",
        format!(
            "each of the {} 32-bit attributes with {} values: small numbers, every byte in every position over 4 backgrounds, every single bit and pair of bits, boundaries of integers, floats and enumerations",
            ss.len(),
            ds[0].len()
        ),
        move |ch, cx| {
            let k = ch.choose("attribute", ss.len());
            let s = &ss[k];
            let x = *ch.pick("value", &ds[k]);
            let mut ir = m[s.mini].clone();
            at(&mut ir, s).v = PV::U32(x);
            check1(cx, &ir)
        },
    ));
    let m = ms.clone();
    let ss = slots(&ms, |v| matches!(v, PV::U64(_)));
    v.push(Space::new(
        "qwords",
        format!("each of the {} 64-bit attributes with every single bit, its complement and prefix", ss.len()),
        move |ch, cx| {
            let s = ch.pick("attribute", &ss);
            let bit = 1u64 << ch.choose("bit", 64);
            let x = [bit, !bit, bit - 1, bit.wrapping_neg()][ch.choose("form", 4)];
            let mut ir = m[s.mini].clone();
            at(&mut ir, s).v = PV::U64(x);
            check1(cx, &ir)
        },
    ));
    // attributes in which several fields share one word
    const ALIGN: [u32; 2] = [p::LayoutAlignmentInParent, p::LayoutAlignmentSelf];
    const COLS: [u32; 8] = [
        p::FontColor, p::Highlight, p::NoteTagHighlightColor, p::NoteTagTextColor, p::SectionColor, p::CellBackgroundColor,
        p::NoteTagPropertyStatus, p::PageLevel,
    ];
    let find = |ms: &[StoreIR], ids: &[u32]| {
        let mut out = vec![];
        for s in slots(ms, |v| matches!(v, PV::U32(_))) {
            let mut ir = ms[s.mini].clone();
            if ids.iter().any(|i| i & 0x3ffffff == at(&mut ir, &s).id) {
                out.push(s);
            }
        }
        out
    };
    let m = ms.clone();
    let ss = find(&ms, &ALIGN);
    v.push(Space::new(
        "alignments",
        format!("every combination of the 11 bits a layout alignment may use, with none or one of the other bits set, for each of the {} alignments", ss.len()),
        move |ch, cx| {
            let s = ch.pick("attribute", &ss);
            const BITS: [u32; 11] = [0, 1, 2, 3, 16, 17, 18, 19, 20, 30, 31];
            let c = ch.choose("bits", 1 << 11);
            let mut x = 0;
            for (i, b) in BITS.iter().enumerate() {
                x |= (c as u32 >> i & 1) << b;
            }
            let o = ch.choose("other", 33);
            if o < 32 {
                if BITS.contains(&(o as u32)) {
                    return Ok(());
                }
                x |= 1 << o;
            }
            let mut ir = m[s.mini].clone();
            at(&mut ir, s).v = PV::U32(x);
            check1(cx, &ir)
        },
    ));
    let m = ms.clone();
    let ss = find(&ms, &COLS);
    let lv: Vec<u32> = if deep { vec![0, 1, 2, 0x7f, 0x80, 0xc3, 0xfe, 0xff] } else { vec![0, 1, 0x80, 0xff] };
    v.push(Space::new(
        "colours",
        format!("every top byte with {} values of each of the three other bytes, for each of the {} colours and flag words", lv.len(), ss.len()),
        move |ch, cx| {
            let s = ch.pick("attribute", &ss);
            let mut x = (ch.choose("top", 256) as u32) << 24;
            for i in 0..3 {
                x |= ch.pick("byte", &lv) << (8 * i);
            }
            let mut ir = m[s.mini].clone();
            at(&mut ir, s).v = PV::U32(x);
            check1(cx, &ir)
        },
    ));
    let m = ms.clone();
    let ls: Vec<(usize, Path)> = {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        for (i, ir) in ms.iter().enumerate() {
            for q in lists(ir) {
                let mut r = ir.clone();
                let j = r.obj(q.0, q.1).jcid;
                let ids: Vec<u32> = list(&mut r, &q).iter().map(|x| x.id).collect();
                if seen.insert((j, ids)) {
                    out.push((i, q));
                }
            }
        }
        out
    };
    let l2 = ls.clone();
    v.push(Space::new(
        "absent",
        "every set of up to two attributes missing from each kind of object",
        move |ch, cx| {
            let (i, q) = ch.pick("object", &l2);
            let mut ir = m[*i].clone();
            let ps = list(&mut ir, q);
            if ps.is_empty() {
                return Ok(());
            }
            let a = ch.choose("first", ps.len());
            let b = ch.choose("second", a + 1);
            ps.remove(a);
            if b < a {
                ps.remove(b);
            }
            check1(cx, &ir)
        },
    ));
    let m = ms.clone();
    v.push(Space::new(
        "alone",
        "each kind of object with its required attributes and exactly one or two optional ones",
        move |ch, cx| {
            let (i, q) = ch.pick("object", &ls);
            let mut ir = m[*i].clone();
            let full = list(&mut ir, q).clone();
            if full.is_empty() {
                return Ok(());
            }
            let a = ch.choose("first", full.len());
            let b = ch.choose("second", a + 1);
            // attributes without which the object is refused stay
            let keep: Vec<usize> = (0..full.len())
                .filter(|k| {
                    let mut v = full.clone();
                    v.remove(*k);
                    let mut ir2 = ir.clone();
                    *list(&mut ir2, q) = v;
                    *k == a || *k == b || expect_section(&ir2, NAME).is_err()
                })
                .collect();
            *list(&mut ir, q) = keep.into_iter().map(|k| full[k].clone()).collect();
            check1(cx, &ir)
        },
    ));
    v.push(super::c17::strings(&["list font", "list text font"], if deep { 3 } else { 2 }));
    v.push(interference(ALL));
    v.push(foreign(ALL, deep));
    // pairs of equal-typed attributes of one object with distinct values
    let m = ms.clone();
    v.push(Space::new(
        "distinct-values",
        "all 32-bit (and all 16-, 8-bit and boolean) attributes of each object set to pairwise distinct (or one differing) values at once, for 32 assignments",
        move |ch, cx| {
            let i = ch.choose("mini", m.len());
            let k = ch.choose("assignment", 32) as u32;
            let mut ir = m[i].clone();
            for q in lists(&m[i]) {
                let jcid = ir.obj(q.0, q.1).jcid;
                for (n, x) in list(&mut ir, &q).iter_mut().enumerate() {
                    let n = n as u32;
                    let fixed = [
                        p::IRecordMedia, p::MathInlineObjectType, p::EmbeddedObjectType, p::LayoutAlignmentInParent,
                        p::LayoutAlignmentSelf, p::FontColor, p::Highlight, p::NoteTagHighlightColor, p::NoteTagTextColor,
                    ];
                    if fixed.iter().any(|f| f & 0x3ffffff == x.id) {
                        continue;
                    }
                    match &mut x.v {
                        PV::U32(v) => *v = (1.0 + n as f32 * 0.5 + k as f32).to_bits(),
                        PV::Bool(v) if jcid != jc::ParagraphStyleObject || x.id & 0xffff < 0x1c10 => *v = n % 32 == k || n % 7 == k % 7,
                        _ => {}
                    }
                }
            }
            check1(cx, &ir)
        },
    ));
    // numbered list formats and packed number lists
    v.push(Space::new(
        "list-formats",
        "a numbered-list format of any 16-bit unit behind any of 4 length prefixes, alone or followed by one of 3 (thorough: 12) units, or any 3 of the 12 units (surrogates, placeholders, zero), with an odd byte or not",
        move |ch, cx| {
            const U: [u16; 12] = [0, 1, 0x2e, 0x29, 0xfffd, 0xffff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x20, 0xfeff];
            let n = ch.choose("units", 4);
            let mut u = vec![*ch.pick("prefix", &[0u16, 3, 0xd83d, 0xffff])];
            if n == 1 || n == 2 {
                u.push(ch.choose("unit", 65536) as u16);
            }
            for _ in if n == 3 { 0..3 } else { 1..n.max(1) } {
                u.push(*ch.pick("more", if n == 2 && !deep { &U[6..9] } else { &U }));
            }
            let mut b = B::new();
            let l = b.list();
            let mut f = utf16(&u);
            if (n != 1 && n != 2 || u[1] < 300) && ch.flag("odd") {
                f.push(0x41);
            }
            b.set(l, p::NumberListFormat, PV::Vec(f));
            let e = b.element(1, &[], &[]);
            b.set(e, p::ListNodes, PV::Oids(vec![l]));
            let o = b.outline(&[e]);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(indents());
    v.push(Space::new(
        "toc-values",
        "a table-of-contents colour with every byte in every position over 4 backgrounds and every pair of bits, and ordering numbers likewise on two entries",
        move |ch, cx| {
            let ds = dwords(0x0030_2010, false);
            let x = *ch.pick("value", &ds);
            let mut ir = toc_flat(&[("A", 0x8000), ("B", 1)]);
            if ch.flag("ordering") {
                ir.obj(0, xo(10)).set(p::NotebookElementOrderingId, PV::U32(x));
            } else {
                ir.obj(0, xo(1)).set(p::SectionColor, PV::U32(x));
            }
            super::c05::check_toc_names(cx, &ir)
        },
    ));
    v.push(super::scale::space("C16", t));
    v
}
