//! Rich text: runs, styles, mathematical and embedded objects stay aligned.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

/// the style of a run of each kind
fn run_style(b: &mut B, k: usize) -> Ex {
    match k {
        0 => b.style(),
        1 => math_style(b),
        2 => emb_style(b, None),
        3 => emb_style(b, Some(0x20026)),
        4 => emb_style(b, Some(0x20027)),
        // both a mathematical and an embedded object
        5 => {
            let s = emb_style(b, None);
            b.set(s, p::MathFormatting, PV::Bool(true));
            s
        }
        // of an embedded type the library does not know
        6 => emb_style(b, Some(0x20099)),
        // explicitly not an object
        _ => {
            let s = full_style(b);
            b.set(s, p::TextRunIsEmbeddedObject, PV::Bool(false));
            b.set(s, p::MathFormatting, PV::Bool(false));
            b.set(s, p::EmbeddedObjectType, PV::U32(0x20026));
            s
        }
    }
}
fn run_data(k: usize, i: usize) -> Vec<Prop> {
    match k {
        1 => math_run(10 + i as u32, i as u32),
        2 => ink_run(10.0 * i as f32),
        3 => space_run(3.0 + i as f32),
        5 => {
            let mut v = ink_run(10.0 * i as f32);
            v.extend(math_run(20 + i as u32, 1));
            v
        }
        _ => vec![],
    }
}
/// `n` ink data objects with recognisable strokes
fn inks(b: &mut B, n: usize) -> Vec<Ex> {
    (0..n)
        .map(|i| {
            let s = b.stroke(&[i as i64 + 1, 10], &[20, -(i as i64)]);
            b.ink_data(&[s])
        })
        .collect()
}
fn sec(mut b: B, t: Ex) -> StoreIR {
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}

/// one value of every attribute of a style
fn attrs() -> Vec<(u32, PV)> {
    vec![
        (p::Charset, PV::U8(2)),
        (p::Bold, PV::Bool(true)),
        (p::Italic, PV::Bool(true)),
        (p::Underline, PV::Bool(true)),
        (p::Strikethrough, PV::Bool(true)),
        (p::Superscript, PV::Bool(true)),
        (p::Subscript, PV::Bool(true)),
        (p::Font, PV::s("F")),
        (p::FontSize, PV::U16(9)),
        (p::FontColor, PV::U32(0x00112233)),
        (p::Highlight, PV::U32(0x00445566)),
        (p::NextStyle, PV::s("n")),
        (p::ParagraphStyleId, PV::s("i")),
        (p::ParagraphAlignment, PV::U8(2)),
        (p::ParagraphSpaceBefore, PV::f(1.0)),
        (p::ParagraphSpaceAfter, PV::f(2.0)),
        (p::ParagraphLineSpacingExact, PV::f(3.0)),
        (p::LanguageId, PV::U32(7)),
        (p::MathFormatting, PV::Bool(true)),
        (p::Hyperlink, PV::Bool(true)),
        (p::HyperlinkProtected, PV::Bool(true)),
        (p::Hidden, PV::Bool(true)),
        (p::UnderlineType, PV::U8(1)),
        (p::TextRunIsEmbeddedObject, PV::Bool(true)),
    ]
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("text", &[jc::RichTextNode, jc::ParagraphStyleObject], t == Tier::Thorough));
    let n = if deep { 8 } else { 6 };
    v.push(Space::new(
        "run-kinds",
        format!("every sequence of up to {n} runs of 5 kinds (plain, mathematical, ink, ink space, ink line break) with 0 to one more embedded reference than the runs need"),
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            let len = ch.choose("runs", n + 1);
            let ks: Vec<usize> = (0..len).map(|_| ch.choose("kind", 5)).collect();
            let st: Vec<Ex> = ks.iter().map(|k| run_style(&mut b, *k)).collect();
            let need = ks.iter().filter(|k| **k == 2).count();
            let have = ch.choose("references", need + 2);
            let d = inks(&mut b, have);
            let t = b.text("abcdefgh", base);
            if len > 0 {
                b.set(t, p::TextRunFormatting, PV::Oids(st));
                b.set(t, p::TextRunIndex, idx(&(1..len as u32).collect::<Vec<_>>()));
                b.set(t, p::TextRunData, PV::Vals(VALS, ks.iter().enumerate().map(|(i, k)| run_data(*k, i)).collect()));
            }
            if have > 0 {
                b.set(t, p::TextRunDataObject, PV::Oids(d));
            }
            check1(cx, &sec(b, t))
        },
    ));
    let n = if deep { 5 } else { 4 };
    v.push(Space::new(
        "all-kinds",
        format!("every sequence of up to {n} runs of 8 kinds (also both mathematical and ink, of an unknown embedded type, explicitly not an object), with run data for one run less, all or one more, and each of 3 reference counts"),
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            let len = 1 + ch.choose("runs", n);
            let ks: Vec<usize> = (0..len).map(|_| ch.choose("kind", 8)).collect();
            let st: Vec<Ex> = ks.iter().map(|k| run_style(&mut b, *k)).collect();
            let need = ks.iter().filter(|k| matches!(k, 2 | 5)).count();
            let have = (need + ch.choose("references", 3)).saturating_sub(1);
            let d = inks(&mut b, have);
            let t = b.text("abcdefgh", base);
            b.set(t, p::TextRunFormatting, PV::Oids(st));
            b.set(t, p::TextRunIndex, idx(&(1..len as u32).collect::<Vec<_>>()));
            let mut rd: Vec<Vec<Prop>> = ks.iter().enumerate().map(|(i, k)| run_data(*k, i)).collect();
            match ch.choose("data", 3) {
                0 => {}
                1 => {
                    rd.pop();
                }
                _ => rd.push(ink_run(5.0)),
            }
            b.set(t, p::TextRunData, PV::Vals(VALS, rd));
            if have > 0 {
                b.set(t, p::TextRunDataObject, PV::Oids(d));
            }
            check1(cx, &sec(b, t))
        },
    ));
    let n = if deep { 8 } else { 6 };
    v.push(Space::new(
        "style-assignment",
        format!("up to {n} runs each using any of 3 different styles, a paragraph using any of them or a fourth, with 3 run-index lists (complete, one short, absent)"),
        move |ch, cx| {
            let mut b = B::new();
            let s1 = full_style(&mut b);
            let s2 = b.style();
            b.set(s2, p::Bold, PV::Bool(true));
            b.set(s2, p::Font, PV::s("Mono"));
            b.set(s2, p::FontColor, PV::U32(0x0000_3344));
            let s3 = b.style();
            b.set(s3, p::Superscript, PV::Bool(true));
            b.set(s3, p::FontSize, PV::U16(40));
            let s4 = b.style();
            b.set(s4, p::ParagraphStyleId, PV::s("own"));
            b.set(s4, p::ParagraphAlignment, PV::U8(2));
            let pool = [s1, s2, s3, s4];
            let len = ch.choose("runs", n + 1);
            let st: Vec<Ex> = (0..len).map(|_| pool[ch.choose("style", 3)]).collect();
            let t = b.text("The quick brown fox", *ch.pick("paragraph style", &pool));
            b.set(t, p::TextRunFormatting, PV::Oids(st));
            match ch.choose("indices", 3) {
                0 => b.set(t, p::TextRunIndex, idx(&(1..len.max(1) as u32).map(|i| i * 3).collect::<Vec<_>>())),
                1 => b.set(t, p::TextRunIndex, idx(&(2..len.max(2) as u32).collect::<Vec<_>>())),
                _ => {}
            }
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "style-differences",
        "two runs and a paragraph with styles that differ in exactly one attribute out of 24, each assignment of the 3 styles",
        move |ch, cx| {
            let attrs = attrs();
            let (id, val) = ch.pick("attribute", &attrs).clone();
            let mut b = B::new();
            let plain = b.style();
            let full = full_style(&mut b);
            let one = b.style();
            b.set(one, id, val.clone());
            let less = full_style(&mut b);
            b.o(less).unset(id);
            let all = [plain, full, one, less];
            let s = [*ch.pick("first", &all), *ch.pick("second", &all)];
            let t = b.text("text", *ch.pick("paragraph", &all));
            b.set(t, p::TextRunFormatting, PV::Oids(s.to_vec()));
            b.set(t, p::TextRunIndex, idx(&[2]));
            // the paragraph's own attributes stay its own
            if ch.flag("own") {
                b.set(t, p::ParagraphSpaceBefore, PV::f(0.1));
                b.set(t, p::ParagraphSpaceAfter, PV::f(0.2));
                b.set(t, p::ParagraphLineSpacingExact, PV::f(0.3));
                b.set(t, p::ParagraphAlignment, PV::U8(1));
            }
            check1(cx, &sec(b, t))
        },
    ));
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "dressed-kinds",
        format!("every sequence of up to {n} runs of 8 kinds whose styles (or one of whose styles) carry any one further attribute, or all of them"),
        move |ch, cx| {
            let attrs = attrs();
            let mut b = B::new();
            let base = b.style();
            let len = 1 + ch.choose("runs", n);
            let ks: Vec<usize> = (0..len).map(|_| ch.choose("kind", 8)).collect();
            let a = ch.choose("attribute", attrs.len() + 1);
            let who = ch.choose("run", if len > 1 { len + 1 } else { 1 });
            let st: Vec<Ex> = ks.iter().map(|k| run_style(&mut b, *k)).collect();
            for (i, s) in st.iter().enumerate() {
                if who != len && len > 1 && who != i {
                    continue;
                }
                for (id, v) in attrs.iter().enumerate().filter(|(k, _)| *k == a || a == attrs.len()).map(|x| x.1) {
                    if !b.o(*s).props.iter().any(|q| q.id == id & 0x3ffffff) {
                        b.set(*s, *id, v.clone());
                    }
                }
            }
            let d = inks(&mut b, ks.iter().filter(|k| matches!(k, 2 | 5)).count());
            let t = b.text("abcdefgh", base);
            b.set(t, p::TextRunFormatting, PV::Oids(st));
            b.set(t, p::TextRunIndex, idx(&(1..len as u32).collect::<Vec<_>>()));
            b.set(t, p::TextRunData, PV::Vals(VALS, ks.iter().enumerate().map(|(i, k)| run_data(*k, i)).collect()));
            if !d.is_empty() {
                b.set(t, p::TextRunDataObject, PV::Oids(d));
            }
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "run-lengths",
        "any two of the 8 lengths of an ink run and an ink-space run with each of 14 values (signs, zero, subnormal, infinite, beyond 16, 24 and 32 bits)",
        move |ch, cx| {
            const X: [f32; 14] =
                [0.0, -0.0, 1.5, -1.5, -1.0, 1e-40, -1e-40, 32768.5, 16777216.0, -16777217.0, 4294967296.0, -3.4e38, f32::INFINITY, f32::NEG_INFINITY];
            let mut b = B::new();
            let base = b.style();
            let (e, s) = (emb_style(&mut b, None), emb_style(&mut b, Some(0x20026)));
            let mut data = vec![ink_run(10.0), space_run(3.0)];
            let at = |k: usize| if k < 6 { (0, k) } else { (1, k - 6) };
            let a = ch.choose("first", 8);
            let c = ch.choose("second", a + 1);
            data[at(a).0][at(a).1].v = PV::f(*ch.pick("value", &X));
            if c < a {
                data[at(c).0][at(c).1].v = PV::f(*ch.pick("value", &X));
            }
            let d = inks(&mut b, 1);
            let t = b.text("ab", base);
            b.set(t, p::TextRunFormatting, PV::Oids(vec![e, s]));
            b.set(t, p::TextRunIndex, idx(&[1]));
            b.set(t, p::TextRunData, PV::Vals(VALS, data));
            b.set(t, p::TextRunDataObject, PV::Oids(d));
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "run-indices",
        "every run-index list of up to 3 entries over 8 boundary values, with 0..=3 trailing bytes, and every text of 5 kinds",
        move |ch, cx| {
            let mut b = B::new();
            let s = b.style();
            let n = ch.choose("indices", 4);
            let mut raw = vec![];
            for _ in 0..n {
                raw.extend(ch.pick("index", &[0u32, 1, 2, 255, 256, 0x10000, 0x7fff_ffff, u32::MAX]).to_le_bytes());
            }
            for _ in 0..ch.choose("trailing", 4) {
                raw.push(0x11);
            }
            let t = b.text(ch.pick("text", &["", "a", "abc", "\u{1F600}x\u{1F600}", "\r\n\t"]), s);
            b.set(t, p::TextRunFormatting, PV::Oids(vec![s; n + 1]));
            b.set(t, p::TextRunIndex, PV::Vec(raw));
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "property-orders",
        "a paragraph with mathematical and ink runs whose style, formatting, run data, references and tags are stored in every order, under 4 compact-id schemes, referring to a shared or to distinct ink objects",
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            let (m, e, sp) = (math_style(&mut b), emb_style(&mut b, None), emb_style(&mut b, Some(0x20026)));
            let d = inks(&mut b, 2);
            let def = full_def(&mut b, "x", 2);
            let shared = ch.flag("shared");
            let vals = vec![
                pr(p::ParagraphStyle, PV::Oid(base)),
                pr(p::TextRunFormatting, PV::Oids(vec![e, m, sp, e])),
                pr(p::TextRunData, PV::Vals(VALS, vec![ink_run(1.0), math_run(12, 3), space_run(2.0), ink_run(5.0)])),
                pr(p::TextRunDataObject, PV::Oids(vec![d[0], if shared { d[0] } else { d[1] }])),
                pr(p::NoteTags, tags(vec![tagset(Some(def), 1, 1, None)])),
            ];
            let mut ps = vec![pr(p::LastModifiedTime, PV::U32(1)), pr(p::TextRunIndex, idx(&[1, 2, 3]))];
            for i in ch.perm("order", 5) {
                ps.push(vals[i].clone());
            }
            let t = b.add(jc::RichTextNode, ps);
            let cid = *ch.pick("ids", &super::c07::CIDS);
            check_store(cx, &sec(b, t), &BuildOpts { oo: ObjOpts { cid, osid_stream: false, ctx_stream: false, nil: 0 }, ..Default::default() }, &Opts::default())
        },
    ));
    v.push(Space::new(
        "run-data",
        "the run data of a mathematical, ink or ink-space run with every subset of its attributes, in the first, second or third run, optionally behind an unknown property in an earlier run",
        move |ch, cx| {
            let k = 1 + ch.choose("kind", 3);
            let mut full = run_data(k, 3);
            // an embedded object's data may also hold the other kind's lengths
            if k != 1 {
                full = ink_run(30.0);
                full.extend(space_run(6.0));
            }
            let mut set = vec![];
            for q in &full {
                if ch.flag("present") {
                    set.push(q.clone());
                }
            }
            let mut b = B::new();
            let base = b.style();
            let st = run_style(&mut b, k);
            let at = ch.choose("run", 3);
            let mut styles = vec![base; 3];
            let mut data = vec![vec![]; 3];
            styles[at] = st;
            data[at] = set;
            if ch.flag("unknown") {
                data[0].insert(0, Prop::new(0x7000, PV::Oids(vec![base, st])));
            }
            let d = inks(&mut b, 1);
            let t = b.text("abc", base);
            b.set(t, p::TextRunFormatting, PV::Oids(styles));
            b.set(t, p::TextRunIndex, idx(&[1, 2]));
            b.set(t, p::TextRunData, PV::Vals(VALS, data));
            b.set(t, p::TextRunDataObject, PV::Oids(d));
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "math-values",
        "two mathematical runs with every kind 0..=64 and around the plain-text kind, every argument count of 9, and characters at 12 boundaries for each of the three characters",
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            let (m1, m2) = (math_style(&mut b), math_style(&mut b));
            let mut r = math_run(11, 1);
            let tys: Vec<u32> = (0..=64).chain([0x8fff_ffff, 0x9000_0000, 0x9000_0001, u32::MAX]).collect();
            let set = |r: &mut Vec<Prop>, id: u32, v: PV| r.iter_mut().find(|q| q.id == id & 0x3ffffff).unwrap().v = v;
            set(&mut r, p::MathInlineObjectType, PV::U32(*ch.pick("type", &tys)));
            match ch.choose("vary", 4) {
                0 => set(&mut r, p::MathInlineObjectCount, PV::U32(*ch.pick("count", &[0, 1, 2, 3, 255, 256, 65536, 0x7fff_ffff, u32::MAX]))),
                i => {
                    let id = [p::MathInlineObjectChar, p::MathInlineObjectChar1, p::MathInlineObjectChar2][i - 1];
                    let c = *ch.pick("char", &[0u16, 1, 0x20, 0x7f, 0x80, 0xff, 0x2211, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff]);
                    set(&mut r, id, PV::U16(c));
                }
            }
            let t = b.text("\u{fdd0}a", base);
            b.set(t, p::TextRunFormatting, PV::Oids(vec![m1, base, m2]));
            b.set(t, p::TextRunIndex, idx(&[1, 2]));
            let rd = if ch.flag("last") { vec![math_run(16, 2), vec![], r] } else { vec![r, vec![], math_run(16, 2)] };
            b.set(t, p::TextRunData, PV::Vals(VALS, rd));
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "faults",
        "a reference of a rich paragraph (paragraph style, any of 4 run styles, any of 2 embedded references) pointing to nothing, to an object of each of the known kinds, or to another object of the paragraph",
        move |ch, cx| {
            let mut b = B::new();
            let t = ink_text(&mut b);
            let jcs = jc::ALL;
            let k = ch.choose("target", jcs.len() + 1);
            let mut bad = xo(777_777);
            if k < jcs.len() {
                bad = b.add(jcs[k], vec![]);
            }
            let set = |v: &mut PV, i: usize| match v {
                PV::Oid(x) => *x = bad,
                PV::Oids(x) => x[i] = bad,
                _ => unreachable!(),
            };
            let (id, i) = *ch.pick(
                "reference",
                &[
                    (p::ParagraphStyle, 0),
                    (p::TextRunFormatting, 0),
                    (p::TextRunFormatting, 1),
                    (p::TextRunFormatting, 2),
                    (p::TextRunFormatting, 3),
                    (p::TextRunDataObject, 0),
                    (p::TextRunDataObject, 1),
                ],
            );
            set(&mut b.o(t).props.iter_mut().find(|q| q.id == id & 0x3ffffff).unwrap().v, i);
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "many-runs",
        "paragraphs of every run count 0..=200 with kinds repeating in 6 patterns and exactly as many embedded references as needed, one less or one more",
        move |ch, cx| {
            let n = ch.choose("runs", 201);
            let pat: &[usize] = ch.pick("pattern", &[&[0][..], &[2], &[2, 3], &[0, 1], &[2, 3, 4, 2], &[1, 2, 0, 4, 3]]);
            let mut b = B::new();
            let base = b.style();
            let pool: Vec<Ex> = (0..5).map(|k| run_style(&mut b, k)).collect();
            let ks: Vec<usize> = (0..n).map(|i| pat[i % pat.len()]).collect();
            let need = ks.iter().filter(|k| **k == 2).count();
            let have = (need + ch.choose("references", 3)).saturating_sub(1);
            let d = inks(&mut b, have);
            let t = b.text("text", base);
            b.set(t, p::TextRunFormatting, PV::Oids(ks.iter().map(|k| pool[*k]).collect()));
            b.set(t, p::TextRunIndex, idx(&(1..n.max(1) as u32).collect::<Vec<_>>()));
            b.set(t, p::TextRunData, PV::Vals(VALS, ks.iter().enumerate().map(|(i, k)| run_data(*k, i % 20)).collect()));
            if have > 0 {
                b.set(t, p::TextRunDataObject, PV::Oids(d));
            }
            check1(cx, &sec(b, t))
        },
    ));
    v.push(Space::new(
        "neighbours",
        "two paragraphs with up to 3 runs of 4 kinds each, sharing styles and ink data or not, in one or two outline elements",
        move |ch, cx| {
            let mut b = B::new();
            let base = b.style();
            let share = ch.flag("shared styles");
            let pool: Vec<Ex> = (0..5).map(|k| run_style(&mut b, k)).collect();
            let d = inks(&mut b, 3);
            let mut ts = vec![];
            for j in 0..2 {
                let len = ch.choose("runs", 4);
                let ks: Vec<usize> = (0..len).map(|_| [0, 1, 2, 3][ch.choose("kind", 4)]).collect();
                let st: Vec<Ex> = ks.iter().map(|k| if share { pool[*k] } else { run_style(&mut b, *k) }).collect();
                let t = b.text(["one", "two"][j], base);
                b.set(t, p::TextRunFormatting, PV::Oids(st));
                b.set(t, p::TextRunData, PV::Vals(VALS, ks.iter().enumerate().map(|(i, k)| run_data(*k, i + 5 * j)).collect()));
                let n = ks.iter().filter(|k| **k == 2).count();
                if n > 0 {
                    b.set(t, p::TextRunDataObject, PV::Oids(if j == 0 { d[..n].to_vec() } else { d[3 - n..].to_vec() }));
                }
                ts.push(t);
            }
            let o = if ch.flag("one element") {
                b.wrap(&ts)
            } else {
                let e = [b.element(1, &ts[..1], &[]), b.element(1, &ts[1..], &[])];
                b.outline(&e)
            };
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(super::c17::strings(&["text", "font", "next style", "style id"], if deep { 3 } else { 2 }));
    v.push(super::c16::interference(&[0, 1]));
    v.push(super::c16::foreign(&[0, 1], deep));
    v.push(super::scale::space("C13", t));
    v
}
