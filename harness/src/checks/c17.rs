//! Text: the characters stored are the characters returned.
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

/// every property that holds text: (name, builder)
type Put = (&'static str, fn(Vec<u8>) -> StoreIR);
fn style_with(id: u32, v: Vec<u8>) -> StoreIR {
    let mut b = B::new();
    let st = b.style();
    b.set(st, id, PV::Vec(v));
    let t = b.text("x", st);
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}
fn image_with(id: u32, v: Vec<u8>) -> StoreIR {
    let mut b = B::new();
    let i = b.image(None);
    b.set(i, id, PV::Vec(v));
    section1(b, &[i], None)
}
fn file_with(id: u32, v: Vec<u8>) -> StoreIR {
    let mut b = B::new();
    let f = b.file("f", vec![1]);
    b.set(f, id, PV::Vec(v));
    section1(b, &[f], None)
}
fn list_with(id: u32, v: Vec<u8>) -> StoreIR {
    let mut b = B::new();
    let l = b.list();
    b.set(l, id, PV::Vec(v));
    let e = b.element(1, &[], &[]);
    b.set(e, p::ListNodes, PV::Oids(vec![l]));
    let o = b.outline(&[e]);
    section1(b, &[o], None)
}
fn text_with(v: Vec<u8>, ascii: Option<Vec<u8>>) -> StoreIR {
    let mut b = B::new();
    let t = b.para("");
    b.set(t, p::RichEditTextUnicode, PV::Vec(v));
    if let Some(a) = ascii {
        b.set(t, p::TextExtendedAscii, PV::Vec(a));
    }
    let o = b.wrap(&[t]);
    section1(b, &[o], None)
}
pub const PUTS: &[Put] = &[
    ("text", |v| text_with(v, None)),
    ("title", |v| {
        let mut b = B::new();
        let t = b.para("");
        b.set(t, p::RichEditTextUnicode, PV::Vec(v));
        let o = b.wrap(&[t]);
        let t = b.title(&[o]);
        section1(b, &[], Some(t))
    }),
    ("section name", |v| {
        let mut ir = section1(B::new(), &[], None);
        ir.obj(0, xo(SMETA)).set(p::SectionDisplayName, PV::Vec(v));
        ir
    }),
    ("author", |v| {
        let mut ir = section1(B::new(), &[], None);
        ir.obj(1, xo(PAGE)).set(p::Author, PV::Vec(v));
        ir
    }),
    ("cached title", |v| {
        let mut ir = section1(B::new(), &[], None);
        ir.obj(1, xo(PMETA)).set(p::CachedTitleString, PV::Vec(v));
        ir
    }),
    ("font", |v| style_with(p::Font, v)),
    ("next style", |v| style_with(p::NextStyle, v)),
    ("style id", |v| style_with(p::ParagraphStyleId, v)),
    ("alt text", |v| image_with(p::ImageAltText, v)),
    ("image file name", |v| image_with(p::ImageFilename, v)),
    ("image text", |v| image_with(p::RichEditTextUnicode, v)),
    ("hyperlink", |v| image_with(p::WzHyperlinkUrl, v)),
    ("extension", |v| {
        let mut b = B::new();
        let i = b.image(Some(vec![1]));
        let c = b.objs.iter().find(|o| o.jcid == jc::PictureContainer).unwrap().id;
        b.set(c, p::PictureFileExtension & 0x3ffffff | 0x1c00_0000, PV::Vec(v));
        section1(b, &[i], None)
    }),
    ("iframe url", |v| {
        let mut b = B::new();
        let i = b.image(None);
        let f = b.add(jc::IFrameNode, vec![pr(p::ImageEmbeddedUrl, PV::Vec(v))]);
        b.set(i, p::ContentChildNodes, PV::Oids(vec![f]));
        section1(b, &[i], None)
    }),
    ("file name", |v| file_with(p::EmbeddedFileName, v)),
    ("source path", |v| file_with(p::SourceFilepath, v)),
    ("list font", |v| list_with(p::ListFont, v)),
    ("list text font", |v| list_with(p::Font, v)),
    ("tag label", |v| {
        let mut b = B::new();
        let d = b.tag_def("", 1);
        b.set(d, p::NoteTagLabel, PV::Vec(v));
        let i = b.image(None);
        b.set(i, p::NoteTags, tags(vec![tagset(Some(d), 0, 0, None)]));
        section1(b, &[i], None)
    }),
];
const UNITS: [u16; 16] = [
    0, 0x61, 0x20, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfeff, 0xfffe, 0xfffd, 0xffff, 0x0a, 0xe9, 0x100, 0x4100, 0xd83d,
];

/// pieces of strings that invite normalising
const PIECES: [&str; 30] = [
    "a", "B", " ", "\t", "\r", "\n", "\u{b}", "/", "\\", ".", "..", ":", "%20", "&amp;", "\"", "'", "<", "\u{e9}", "e\u{301}", "\u{a0}", "\u{200b}",
    "\u{202e}", "\u{feff}", "\u{fffc}", "\u{1f600}", "\u{1}", "\u{7f}", "\u{130}", "\0", "http://a",
];
/// every text property of those named holding up to three of the pieces
pub fn strings(which: &'static [&'static str], n: usize) -> Space {
    let puts: Vec<Put> = PUTS.iter().filter(|x| which.is_empty() || which.contains(&x.0)).copied().collect();
    assert!(which.is_empty() || puts.len() == which.len());
    Space::new(
        "string-pieces",
        format!("{} text properties, each holding every sequence of up to {n} of 30 pieces (letters, blanks and line breaks, separators, escapes, markup, combining and invisible characters, NUL)", puts.len()),
        move |ch, cx| {
            let put = ch.pick("property", &puts);
            let l = 1 + ch.choose("pieces", n);
            let s: String = (0..l).map(|_| *ch.pick("piece", &PIECES)).collect();
            check1(cx, &put.1(utf16(&s.encode_utf16().collect::<Vec<_>>())))
        },
    )
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new(
        "every-unit",
        format!("each of the {} text properties holding any one of the 65536 UTF-16 units between two letters", PUTS.len()),
        move |ch, cx| {
            let put = ch.pick("property", PUTS);
            let u = ch.choose("unit", 65536) as u16;
            check1(cx, &put.1(utf16(&[0x78, u, 0x79])))
        },
    ));
    let full = deep;
    v.push(Space::new(
        "surrogate-pairs",
        if full {
            "every character outside the basic plane as a paragraph, every high surrogate with 20 low ones and vice versa in every text property"
        } else {
            "every high surrogate with 8 low ones and every low with 8 high ones, in a paragraph, a file name, a tag label and a section name"
        },
        move |ch, cx| {
            let (put, hi, lo) = if full && ch.flag("all") {
                (&PUTS[0], ch.choose("high", 1024), ch.choose("low", 1024))
            } else {
                const FEW: [usize; 8] = [0, 1, 0x3d, 0xff, 0x100, 0x200, 0x3fe, 0x3ff];
                let put = if full { ch.pick("property", PUTS) } else { &PUTS[*ch.pick("property", &[0usize, 14, 18, 2])] };
                let a = ch.choose("unit", 1024);
                let b = *ch.pick("other", &FEW);
                if ch.flag("swap") { (put, b, a) } else { (put, a, b) }
            };
            check1(cx, &put.1(utf16(&[0x41, 0xd800 + hi as u16, 0xdc00 + lo as u16, 0x42])))
        },
    ));
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "unit-sequences",
        format!("every sequence of up to {n} units (2 for properties other than paragraph, title, label) over 16 units (NUL, surrogates, byte-order marks, halves that look like NUL), with or without an odd trailing byte"),
        move |ch, cx| {
            let k = ch.choose("property", PUTS.len());
            let len = ch.choose("length", if k < 2 || k == 18 { n + 1 } else { 3 });
            let u: Vec<u16> = (0..len).map(|_| *ch.pick("unit", &UNITS)).collect();
            let mut b = utf16(&u);
            if ch.flag("odd") {
                b.push(*ch.pick("byte", &[0u8, 0x41, 0xd8]));
            }
            check1(cx, &PUTS[k].1(b))
        },
    ));
    v.push(Space::new(
        "8-bit",
        "every pair of the 256 byte values as 8-bit text, with the Unicode form absent, empty, a NUL or other text",
        move |ch, cx| {
            let a = ch.choose("first", 256) as u8;
            let c = ch.choose("second", 257);
            let mut d = vec![a];
            if c < 256 {
                d.push(c as u8);
            }
            let u: Option<Vec<u8>> = [None, Some(vec![]), Some(vec![0, 0]), Some(utf16(&[0x55, 0xe9]))][ch.choose("unicode", if deep { 4 } else { 2 })].clone();
            let mut ir = text_with(vec![], Some(d));
            let id = ir.spaces[1].revs[0].groups[0].objs.iter().find(|o| o.jcid == jc::RichTextNode).unwrap().id;
            match u {
                None => {
                    ir.obj(1, id).unset(p::RichEditTextUnicode);
                }
                Some(u) => {
                    ir.obj(1, id).set(p::RichEditTextUnicode, PV::Vec(u));
                }
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "8-bit-precedence",
        "8-bit text of 6 kinds with Unicode text of 8 kinds (absent, empty, NUL, text, invalid), stored in either order, in a paragraph or a title",
        move |ch, cx| {
            let a: Option<Vec<u8>> = ch.pick(
                "8-bit",
                &[None, Some(vec![]), Some(b"abc".to_vec()), Some(vec![0x80, 0xff]), Some(vec![0]), Some(vec![0x61, 0, 0x62])],
            ).clone();
            let u: Option<Vec<u8>> = ch.pick(
                "unicode",
                &[
                    None,
                    Some(vec![]),
                    Some(vec![0, 0]),
                    Some(utf16(&[0x78])),
                    Some(utf16(&[0x78, 0, 0x79])),
                    Some(utf16(&[0xd800])),
                    Some(vec![0x41]),
                    Some(utf16(&[0, 0xd800])),
                ],
            ).clone();
            let mut b = B::new();
            let t = b.para("");
            b.o(t).unset(p::RichEditTextUnicode);
            let mut add = vec![];
            if let Some(a) = a {
                add.push((p::TextExtendedAscii, a));
            }
            if let Some(u) = u {
                add.push((p::RichEditTextUnicode, u));
            }
            if ch.flag("swap") {
                add.reverse();
            }
            for (id, d) in add {
                b.set(t, id, PV::Vec(d));
            }
            let o = b.wrap(&[t]);
            let ir = if ch.flag("title") {
                let ti = b.title(&[o]);
                section1(b, &[], Some(ti))
            } else {
                section1(b, &[o], None)
            };
            check1(cx, &ir)
        },
    ));
    let ml = if deep { 1100 } else { 300 };
    v.push(Space::new(
        "lengths",
        format!("paragraphs and labels of every length 0..={ml} and around 2^10..2^16 units, whole, NUL-terminated, with text behind the NUL, or of two-unit characters"),
        move |ch, cx| {
            let k = ch.choose("length", ml + 13);
            let n = if k <= ml { k } else { [1023, 1024, 2047, 4096, 8191, 16383, 16384, 32767, 32768, 65535, 65536, 66000][k - ml - 1] };
            let put = &PUTS[*ch.pick("property", &[0usize, 18, 14])];
            let mut u: Vec<u16> = (0..n).map(|i| 0x20 + (i * 7 % 0x500) as u16).collect();
            match ch.choose("form", 4) {
                0 => {}
                1 => u.push(0),
                2 => u.extend([0, 0x61, 0x62]),
                _ => u = (0..n).flat_map(|i| [0xd83d, 0xde00 + (i % 64) as u16]).collect(),
            }
            check1(cx, &put.1(utf16(&u)))
        },
    ));
    v.push(Space::new(
        "null-positions",
        "a NUL unit at every position of a 40-unit text in every text property, followed by valid or invalid units",
        move |ch, cx| {
            let put = ch.pick("property", PUTS);
            let mut u: Vec<u16> = (0..40).map(|i| 0x430 + i).collect();
            let at = ch.choose("position", 40);
            u[at] = 0;
            if ch.flag("invalid tail") && at < 39 {
                u[39] = 0xdc00;
            }
            check1(cx, &put.1(utf16(&u)))
        },
    ));
    v.push(Space::new(
        "entry-names",
        "names of notebook entries: every sequence of up to 3 of 14 units or escapes (^M, ^J, ^, +, comma, space, surrogates, NUL), as directories of that name",
        move |ch, cx| {
            const PCS: [&[u16]; 14] = [
                &[0x61], &[0x5e], &[0x5e, 0x4d], &[0x5e, 0x4a], &[0x2b], &[0x2c], &[0x20], &[0x4d], &[0x4a], &[0xe9], &[0xd83d, 0xde00], &[0xd800],
                &[0], &[0x5e, 0x6d],
            ];
            let n = 1 + ch.choose("pieces", 3);
            let mut u = vec![];
            for _ in 0..n {
                u.extend(*ch.pick("piece", &PCS));
            }
            let mut ir = toc_flat(&[("Z", 5), ("x", 2)]);
            ir.obj(0, xo(10)).set(p::FolderChildFilename, PV::Vec(utf16(&u)));
            super::c05::check_toc_names(cx, &ir)
        },
    ));
    v.push(strings(&[], 2));
    v.push(super::scale::space("C17", t));
    v
}
