//! Ink: stroke points, dimension layouts, scaling, boxes and pen attributes.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Page,
    Element,
    Embedded,
}
const AT: [At; 3] = [At::Page, At::Element, At::Embedded];

/// A section showing the ink data `d` in the given place.
fn place(mut b: B, d: Ex, at: At, scale: (Option<f32>, Option<f32>)) -> (StoreIR, Ex) {
    if at == At::Embedded {
        let s = b.style();
        let t = b.text("\u{fffc}", s);
        b.set(s, p::TextRunIsEmbeddedObject, PV::Bool(true));
        b.set(t, p::TextRunFormatting, PV::Oids(vec![s]));
        b.set(t, p::TextRunDataObject, PV::Oids(vec![d]));
        b.set(t, p::TextRunData, PV::Vals(VALS, vec![ink_run(1.0)]));
        let o = b.wrap(&[t]);
        return (section1(b, &[o], None), t);
    }
    let i = b.add(jc::InkContainer, vec![pr(p::InkData, PV::Oid(d))]);
    if let Some(x) = scale.0 {
        b.set(i, p::InkScalingX, PV::f(x));
    }
    if let Some(y) = scale.1 {
        b.set(i, p::InkScalingY, PV::f(y));
    }
    let top = if at == At::Page { i } else { b.wrap(&[i]) };
    (section1(b, &[top], None), i)
}
fn path(b: &mut B, vals: &[i64], layout: &[G]) -> Ex {
    let s = b.stroke(&[], &[]);
    set_path(b, s, vals, layout);
    s
}
fn set_path(b: &mut B, s: Ex, vals: &[i64], layout: &[G]) {
    b.set(s, p::InkPath, PV::Vec(isf_enc(vals)));
    let q = b.o(s).props.iter().find_map(|q| if let PV::Oid(x) = q.v { Some(x) } else { None }).unwrap();
    let mut d = dims(layout);
    for (k, c) in d.chunks_mut(32).enumerate() {
        // limits and unit of each dimension are of no consequence
        for (i, x) in c[16..].iter_mut().enumerate() {
            *x = (k * 16 + i) as u8 ^ 0x5a;
        }
    }
    b.set(q, p::InkDimensions, PV::Vec(d));
}
fn stroke_props(b: &mut B, s: Ex) -> Ex {
    b.o(s).props.iter().find_map(|q| if let PV::Oid(x) = q.v { Some(x) } else { None }).unwrap()
}
fn other(k: u8) -> G {
    let mut g = DIM_X();
    g[k as usize % 16] ^= 0x10 << (k / 16 % 4);
    g
}
/// an identifier one bit away from X (even) or Y (odd)
fn near(k: usize) -> G {
    let mut g = if k % 2 == 0 { DIM_X() } else { DIM_Y() };
    let bit = k / 2;
    g[bit / 8] ^= 1 << (bit % 8);
    g
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("ink", &[jc::InkContainer, jc::InkDataNode, jc::InkStrokeNode, jc::StrokePropertiesNode], t == Tier::Thorough));

    // ---------------------------------------------------------- integers
    let blocks = if deep { 4096usize } else { 256 };
    v.push(Space::new(
        "every-coordinate",
        format!("every coordinate of magnitude below {} in both signs, {} per stroke, as X and as Y", blocks * 512, 1024),
        move |ch, cx| {
            let k = ch.choose("block", blocks) as i64;
            let swap = ch.flag("as Y");
            let mut xs = vec![];
            for i in 0..512 {
                let x = k * 512 + i;
                xs.push(x);
                xs.push(-x);
            }
            let ys: Vec<i64> = (0..xs.len() as i64).collect();
            let mut b = B::new();
            let s = if swap { b.stroke(&ys, &xs) } else { b.stroke(&xs, &ys) };
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Page, (None, None));
            check1(cx, &ir)
        },
    ));
    let span = if deep { 4096i64 } else { 256 };
    v.push(Space::new(
        "wide-coordinates",
        format!("every coordinate within {span} of each power of two from 2^7 to 2^63 in both signs, and every value of one non-zero 7-bit group in each of the first 9 positions, alone and with all lower groups full"),
        move |ch, cx| {
            let pow = ch.choose("power", 57 + 9) as u32;
            let mut xs: Vec<i64> = vec![];
            if pow < 57 {
                let e = 1u64 << (pow + 7);
                for d in -span..=span {
                    let m = e as i128 + d as i128;
                    if m >= 0 && m < 1 << 63 {
                        xs.push(m as i64);
                        xs.push(-(m as i64));
                    }
                }
            } else {
                let g = pow - 57;
                for v in 1..128u64 {
                    let hi = (v as u128) << (7 * g);
                    for x in [hi, hi | ((1u128 << (7 * g)) - 1)] {
                        if x < 1 << 64 {
                            // as stored: lowest bit is the sign
                            let m = (x >> 1) as i64;
                            xs.push(if x & 1 == 1 { -m } else { m });
                        }
                    }
                }
            }
            let ys: Vec<i64> = (0..xs.len() as i64).collect();
            let mut b = B::new();
            let s = b.stroke(&xs, &ys);
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Page, (None, None));
            check1(cx, &ir)
        },
    ));
    let nb = if deep { 5 } else { 4 };
    v.push(Space::new(
        "packed-bytes",
        format!("every packed path of up to {nb} bytes over a 14-value alphabet (lengths that fit, fall short and exceed the data), with one and with three dimensions"),
        move |ch, cx| {
            const A: [u8; 14] = [0, 1, 2, 3, 4, 6, 12, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x84, 0xff];
            let n = ch.choose("bytes", nb + 1);
            let raw: Vec<u8> = (0..n).map(|_| *ch.pick("byte", &A)).collect();
            let three = ch.flag("three dimensions");
            let mut b = B::new();
            let s = path(&mut b, &[], &if three { vec![DIM_Y(), other(3), DIM_X()] } else { vec![DIM_X(), DIM_Y()] });
            b.set(s, p::InkPath, PV::Vec(raw));
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Element, (None, None));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "overlong",
        "a coordinate of each of 10 byte lengths (padded with empty groups, or genuinely wide) up to and beyond the 64-bit range, as the first, middle or last of the path, and the count itself so encoded",
        move |ch, cx| {
            let len = 1 + ch.choose("length", 12);
            let low = *ch.pick("low", &[0u8, 1, 2, 0x7f, 0x55]);
            let top = *ch.pick("top", &[0u8, 1, 2, 3, 0x40, 0x7f]);
            let fill = *ch.pick("fill", &[0u8, 0x7f]);
            let at = ch.choose("at", 7);
            let mut enc = vec![];
            for i in 0..len {
                let bits = if i == 0 { low } else if i + 1 == len { top } else { fill };
                enc.push(bits | if i + 1 < len { 0x80 } else { 0 });
            }
            let mut raw = vec![];
            if at == 6 {
                raw.extend(&enc);
                raw.extend([2u8, 4, 6, 8]);
            } else {
                raw.push(12);
                for i in 0..6 {
                    if i == at { raw.extend(&enc) } else { raw.push(2 * i as u8 + 1) }
                }
            }
            let mut b = B::new();
            let s = b.stroke(&[], &[]);
            b.set(s, p::InkPath, PV::Vec(raw));
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Page, (None, None));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "truncation",
        "packed data of coordinates of every byte length cut at every byte, the count one, two and many too high, and packed data followed by every number of surplus bytes up to 5",
        move |ch, cx| {
            let vals: Vec<i64> = vec![1, -64, 8191, -8192, 1 << 20, -(1 << 27), 1 << 34, -(1 << 41), 1 << 48, -(1 << 55), 1 << 61, -5];
            let enc = isf_enc(&vals);
            let mut raw = enc.clone();
            match ch.choose("how", 3) {
                0 => {
                    raw.truncate(ch.choose("cut", enc.len()));
                }
                1 => {
                    let more = *ch.pick("more", &[1u64, 2, 3, 50, 1 << 20, 1 << 40, (1 << 62) + 7]);
                    let mut h = vec![];
                    isf_uint((vals.len() as u64 + more) << 1 | ch.flag("sign bit") as u64, &mut h);
                    h.extend(&raw[1..]);
                    raw = h;
                }
                _ => {
                    for _ in 0..ch.choose("surplus", 6) {
                        raw.push(*ch.pick("surplus byte", &[0u8, 0x80, 0xff]));
                    }
                }
            }
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let good = b.stroke(&[1], &[2]);
            let s = b.stroke(&[], &[]);
            b.set(s, p::InkPath, PV::Vec(raw));
            let pos = ch.choose("position", 3);
            let mut l = vec![good; 2];
            l.insert(pos, s);
            let d = b.ink_data(&l);
            let (ir, _) = place(b, d, at, (None, None));
            check1(cx, &ir)
        },
    ));

    // -------------------------------------------------------- dimensions
    let nd = if deep { 6 } else { 5 };
    v.push(Space::new(
        "dimension-layouts",
        format!("every sequence of up to {nd} dimensions, each X, Y or one of two others, with 0..4 points (and data that does not divide evenly), with different scale factors, in each place"),
        move |ch, cx| {
            let n = ch.choose("dimensions", nd + 1);
            let l: Vec<G> = (0..n)
                .map(|_| match ch.choose("dimension", 4) {
                    0 => DIM_X(),
                    1 => DIM_Y(),
                    k => other(k as u8 * 5),
                })
                .collect();
            let pts = ch.choose("points", 5);
            let extra = ch.choose("extra values", 2);
            let vals: Vec<i64> = (0..(n * pts + extra) as i64).map(|i| if i % 3 == 2 { -i - 10 } else { i + 10 }).collect();
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let s = path(&mut b, &vals, &l);
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, at, (Some(0.5), Some(3.0)));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "near-dimensions",
        "a dimension identifier differing from X or Y in each single bit, in place of it, before it or after it",
        move |ch, cx| {
            let k = ch.choose("bit", 256);
            let g = near(k);
            let l = match ch.choose("how", 3) {
                0 => vec![if k % 2 == 0 { g } else { DIM_X() }, if k % 2 == 1 { g } else { DIM_Y() }],
                1 => vec![g, DIM_X(), DIM_Y()],
                _ => vec![DIM_Y(), DIM_X(), g],
            };
            let mut b = B::new();
            let vals: Vec<i64> = (1..=2 * l.len() as i64).collect();
            let s = path(&mut b, &vals, &l);
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Page, (None, None));
            check1(cx, &ir)
        },
    ));
    let np = if deep { 20_000usize } else { 700 };
    v.push(Space::new(
        "point-counts",
        format!("strokes of every number of points from 0 to {}, coordinates of mixed widths, 2 and 4 dimensions", np - 1),
        move |ch, cx| {
            let n = ch.choose("points", np) as i64;
            let l = if ch.flag("four") { vec![other(1), DIM_Y(), other(2), DIM_X()] } else { vec![DIM_X(), DIM_Y()] };
            let vals: Vec<i64> = (0..n * l.len() as i64).map(|i| (i * 37 + 5) * if i % 2 == 0 { 1 } else { -1 } << (i % 9)).collect();
            let mut b = B::new();
            let s = path(&mut b, &vals, &l);
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, At::Page, (None, None));
            check1(cx, &ir)
        },
    ));

    // ------------------------------------------------------------ scaling
    v.push(Space::new(
        "scaling",
        "every pair of 12 horizontal and vertical scale factors (absent, zero, negative, tiny, huge, infinite, not a number), two strokes of several points and a bounding box, in each place",
        move |ch, cx| {
            let f = |i: usize| -> Option<f32> {
                [None, Some(1.0), Some(0.0), Some(-0.0), Some(2.0), Some(0.5), Some(-3.0), Some(0.1), Some(1e-40), Some(3e38), Some(f32::INFINITY), Some(f32::NAN)][i]
            };
            let (x, y) = (f(ch.choose("x factor", 12)), f(ch.choose("y factor", 12)));
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let s = b.stroke(&[0, 1, -7, 100_000], &[5, -6, 0, 33]);
            let r = path(&mut b, &[1, 2, 3, 4, 5, 6], &[other(9), DIM_Y(), DIM_X()]);
            let d = b.ink_data(&[s, r]);
            if ch.flag("box") {
                b.set(d, p::InkBoundingBox, PV::Vec([3u32, 7, 1000, 65_537].iter().flat_map(|v| v.to_le_bytes()).collect()));
            }
            let (ir, i) = place(b, d, at, (x, y));
            let mut ir = ir;
            if at != At::Embedded && ch.flag("offsets") {
                let o = ir.obj(1, i);
                o.set(p::OffsetFromParentHoriz, PV::f(11.5));
                o.set(p::OffsetFromParentVert, PV::f(-2.25));
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "bounding-box",
        "bounding boxes with each corner from 8 values (reversed and extreme ones included), and box data of every length up to 40 bytes, in each place, scaled and not",
        move |ch, cx| {
            const V: [u32; 8] = [0, 1, 100, 65_535, 1 << 24, 0x7fff_ffff, 0x8000_0000, u32::MAX];
            let mut raw: Vec<u8> = vec![];
            if ch.flag("length") {
                let n = ch.choose("bytes", 41);
                raw = (0..n as u8).map(|i| i.wrapping_mul(7) + 1).collect();
            } else {
                for c in ["x0", "y0", "x1", "y1"] {
                    raw.extend(ch.pick(c, &V).to_le_bytes());
                }
            }
            let at = *ch.pick("place", &AT);
            let sc = if ch.flag("scaled") { (Some(0.25), Some(-8.0)) } else { (None, None) };
            let mut b = B::new();
            let s = b.stroke(&[1], &[2]);
            let d = b.ink_data(&[s]);
            b.set(d, p::InkBoundingBox, PV::Vec(raw));
            let (ir, _) = place(b, d, at, sc);
            check1(cx, &ir)
        },
    ));

    // --------------------------------------------------------- attributes
    v.push(Space::new(
        "pen-attributes",
        "every subset of a stroke's nine optional and required attributes with two values each, every pen tip and transparency value, in each place",
        move |ch, cx| {
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let s = b.stroke(&[1, 2], &[3, 4]);
            let q = stroke_props(&mut b, s);
            if ch.flag("byte sweep") {
                let which = ch.choose("attribute", 4);
                let val = ch.choose("value", 256) as u8;
                match which {
                    0 => b.set(q, p::InkPenTip, PV::U8(val)),
                    1 => b.set(q, p::InkTransparency, PV::U8(val)),
                    2 => b.set(q, p::InkRasterOperation, PV::U8(val)),
                    _ => b.set(s, p::InkBias, PV::U8(val)),
                };
            } else {
                let tri = |ch: &mut Ch, l: &'static str| ch.choose(l, 3);
                for (id, l, a, c) in [
                    (p::InkPenTip, "tip", PV::U8(1), PV::U8(200)),
                    (p::InkTransparency, "transparency", PV::U8(0), PV::U8(254)),
                    (p::InkColor, "colour", PV::U32(0), PV::U32(0xfedc_ba98)),
                    (p::InkHeight, "height", PV::f(0.5), PV::f(70.0)),
                    (p::InkWidth, "width", PV::f(0.75), PV::f(90.0)),
                ] {
                    match tri(ch, l) {
                        0 => {
                            b.o(q).unset(id);
                        }
                        1 => {
                            b.set(q, id, a);
                        }
                        _ => {
                            b.set(q, id, c);
                        }
                    }
                }
                for id in [p::InkAntialised, p::InkFitToCurve, p::InkIgnorePressure] {
                    if ch.flag("flag") {
                        b.set(q, id, PV::Bool(true));
                    }
                }
                if ch.flag("language") {
                    b.set(s, p::LanguageId, PV::U32(1033));
                }
            }
            let d = b.ink_data(&[s]);
            let (ir, _) = place(b, d, at, (None, None));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "missing-parts",
        "each object and each property of a three-stroke ink removed in turn (or any two of them), in each place",
        move |ch, cx| {
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let ss: Vec<Ex> = (0..3).map(|i| b.stroke(&[i, 2], &[3, -i])).collect();
            let q: Vec<Ex> = ss.iter().map(|s| stroke_props(&mut b, *s)).collect();
            let d = b.ink_data(&ss);
            let (mut ir, top) = place(b, d, at, (Some(2.0), None));
            let mut all = ss.clone();
            all.extend(&q);
            all.push(d);
            if at != At::Embedded {
                all.push(top);
            }
            let n = 1 + ch.choose("faults", 2);
            for _ in 0..n {
                let o = *ch.pick("object", &all);
                let objs = &mut ir.spaces[1].revs[0].groups[0].objs;
                let Some(i) = objs.iter().position(|x| x.id == o) else { return Ok(()) };
                let k = ch.choose("property", objs[i].props.len() + 1);
                if k == objs[i].props.len() {
                    objs.remove(i);
                } else {
                    objs[i].props.remove(k);
                }
            }
            check1(cx, &ir)
        },
    ));
    let ns = if deep { 5 } else { 4 };
    v.push(Space::new(
        "stroke-lists",
        format!("every list of up to {ns} strokes drawn (with repetition) from four strokes that differ in points, layout and pen, two of them sharing one properties object, with or without a bounding box, under 4 compact-id schemes"),
        move |ch, cx| {
            let at = *ch.pick("place", &AT);
            let mut b = B::new();
            let a = b.stroke(&[1, 2, 3], &[4, 5, 6]);
            let q = stroke_props(&mut b, a);
            b.set(q, p::InkColor, PV::U32(77));
            let c = path(&mut b, &[9, 8, 7, -6, 5, 4], &[DIM_Y(), other(2), DIM_X()]);
            let q2 = stroke_props(&mut b, c);
            b.set(q2, p::InkPenTip, PV::U8(1));
            let e = b.stroke(&[], &[]);
            let f = b.stroke(&[-100], &[300]);
            b.set(f, p::InkStrokeProperties, PV::Oid(q));
            let pool = [a, c, e, f];
            let n = ch.choose("strokes", ns + 1);
            let l: Vec<Ex> = (0..n).map(|_| *ch.pick("stroke", &pool)).collect();
            let d = b.ink_data(&l);
            if ch.flag("bounding box") {
                b.set(d, p::InkBoundingBox, PV::Vec([-3i32, 5, 70, -9].iter().flat_map(|x| x.to_le_bytes()).collect()));
            }
            let cid = *ch.pick("ids", &super::c07::CIDS);
            let (ir, _) = place(b, d, at, (Some(0.5), Some(4.0)));
            check_store(cx, &ir, &BuildOpts { oo: ObjOpts { cid, osid_stream: false, ctx_stream: false, nil: 0 }, ..Default::default() }, &Opts::default())
        },
    ));
    v.push(Space::new(
        "several-inks",
        "up to three inks on the page and up to two in an element, each with its own or a shared data object (or none), its own scale factors and offsets",
        move |ch, cx| {
            let mut b = B::new();
            let s1 = b.stroke(&[1, 2], &[3, 4]);
            let s2 = b.stroke(&[10, 20, 30], &[-3, -4, -5]);
            let (d1, d2) = (b.ink_data(&[s1]), b.ink_data(&[s2, s1]));
            b.set(d2, p::InkBoundingBox, PV::Vec([1u32, 2, 30, 40].iter().flat_map(|v| v.to_le_bytes()).collect()));
            let mut k = 0;
            let mut one = |b: &mut B, ch: &mut Ch| {
                k += 1;
                let i = b.add(jc::InkContainer, vec![]);
                match ch.choose("data", 3) {
                    0 => {}
                    1 => {
                        b.set(i, p::InkData, PV::Oid(d1));
                    }
                    _ => {
                        b.set(i, p::InkData, PV::Oid(d2));
                    }
                }
                if ch.flag("x factor") {
                    b.set(i, p::InkScalingX, PV::f(k as f32 + 0.5));
                }
                if ch.flag("y factor") {
                    b.set(i, p::InkScalingY, PV::f(k as f32 * -2.0));
                }
                match ch.choose("offset", 3) {
                    1 => {
                        b.set(i, p::OffsetFromParentHoriz, PV::f(k as f32));
                    }
                    2 => {
                        b.set(i, p::OffsetFromParentVert, PV::f(-(k as f32)));
                    }
                    _ => {}
                }
                i
            };
            let n = ch.choose("on the page", if deep { 4 } else { 3 });
            let m = ch.choose("in an element", if deep { 3 } else { 2 });
            let mut top: Vec<Ex> = (0..n).map(|_| one(&mut b, ch)).collect();
            let inner: Vec<Ex> = (0..m).map(|_| one(&mut b, ch)).collect();
            let o = b.wrap(&inner);
            top.push(o);
            check1(cx, &section1(b, &top, None))
        },
    ));
    v.push(super::c16::interference(&[1, 5]));
    v.push(super::c16::foreign(&[1, 5], deep));
    v.push(super::scale::space("C14", t));
    v
}
