//! A section and a table of contents using every entity and property the
//! library reads, as the base of fault enumeration.
use crate::enc::*;
use crate::ids::*;
use crate::model::*;
use crate::store::*;

pub const VALS: u32 = 0x4400_0811;

pub fn tagset(def: Option<Ex>, status: u16, created: u32, done: Option<u32>) -> Vec<Prop> {
    let mut v = vec![pr(p::NoteTagCreated, PV::U32(created)), pr(p::ActionItemStatus, PV::U16(status))];
    if let Some(d) = done {
        v.push(pr(p::NoteTagCompleted, PV::U32(d)));
    }
    if let Some(d) = def {
        v.push(pr(p::NoteTagDefinitionOid, PV::Oid(d)));
    }
    v
}
pub fn tags(sets: Vec<Vec<Prop>>) -> PV {
    PV::Vals(VALS, sets)
}
pub fn full_style(b: &mut B) -> Ex {
    let s = b.style();
    for (id, v) in [
        (p::Charset, PV::U8(204)),
        (p::Bold, PV::Bool(true)),
        (p::Italic, PV::Bool(true)),
        (p::Underline, PV::Bool(true)),
        (p::Strikethrough, PV::Bool(false)),
        (p::Superscript, PV::Bool(true)),
        (p::Subscript, PV::Bool(false)),
        (p::Font, PV::s("Calibri")),
        (p::FontSize, PV::U16(22)),
        (p::FontColor, PV::U32(0x0010_2030)),
        (p::Highlight, PV::U32(0xff00_0000)),
        (p::NextStyle, PV::s("p")),
        (p::ParagraphStyleId, PV::s("h1")),
        (p::ParagraphAlignment, PV::U8(1)),
        (p::ParagraphSpaceBefore, PV::f(0.5)),
        (p::ParagraphSpaceAfter, PV::f(0.25)),
        (p::ParagraphLineSpacingExact, PV::f(2.0)),
        (p::LanguageId, PV::U32(1033)),
        (p::Hyperlink, PV::Bool(false)),
        (p::Hidden, PV::Bool(false)),
    ] {
        b.set(s, id, v);
    }
    s
}
pub fn emb_style(b: &mut B, ty: Option<u32>) -> Ex {
    let s = b.style();
    b.set(s, p::TextRunIsEmbeddedObject, PV::Bool(true));
    if let Some(t) = ty {
        b.set(s, p::EmbeddedObjectType, PV::U32(t));
    }
    s
}
pub fn math_style(b: &mut B) -> Ex {
    let s = b.style();
    b.set(s, p::MathFormatting, PV::Bool(true));
    s
}
pub fn math_run(ty: u32, n: u32) -> Vec<Prop> {
    vec![
        pr(p::MathInlineObjectType, PV::U32(ty)),
        pr(p::MathInlineObjectCount, PV::U32(n)),
        pr(p::MathInlineObjectCol, PV::U8(2)),
        pr(p::MathInlineObjectAlign, PV::U8(1)),
        pr(p::MathInlineObjectChar, PV::U16(0x28)),
        pr(p::MathInlineObjectChar1, PV::U16(0x29)),
        pr(p::MathInlineObjectChar2, PV::U16(0x2211)),
    ]
}
pub fn ink_run(k: f32) -> Vec<Prop> {
    vec![
        pr(p::EmbeddedInkStartX, PV::f(k)),
        pr(p::EmbeddedInkStartY, PV::f(k + 1.0)),
        pr(p::EmbeddedInkWidth, PV::f(k + 2.0)),
        pr(p::EmbeddedInkHeight, PV::f(k + 3.0)),
        pr(p::EmbeddedInkOffsetHoriz, PV::f(k + 4.0)),
        pr(p::EmbeddedInkOffsetVert, PV::f(k + 5.0)),
    ]
}
pub fn space_run(k: f32) -> Vec<Prop> {
    vec![pr(p::EmbeddedInkSpaceWidth, PV::f(k)), pr(p::EmbeddedInkSpaceHeight, PV::f(k + 0.5))]
}
pub fn idx(v: &[u32]) -> PV {
    PV::Vec(v.iter().flat_map(|x| x.to_le_bytes()).collect())
}

/// one paragraph with plain, formatted and mathematical runs
pub fn rich_text(b: &mut B) -> Ex {
    let (base, s1, s2) = (b.style(), full_style(b), math_style(b));
    let t = b.text("abc def \u{1F600}xyz", base);
    b.set(t, p::TextRunFormatting, PV::Oids(vec![s1, s2, base]));
    b.set(t, p::TextRunIndex, idx(&[3, 8]));
    b.set(t, p::TextRunData, PV::Vals(VALS, vec![vec![], math_run(16, 2), vec![]]));
    for (id, v) in [
        (p::ParagraphSpaceBefore, PV::f(1.0)),
        (p::ParagraphSpaceAfter, PV::f(2.0)),
        (p::ParagraphLineSpacingExact, PV::f(3.0)),
        (p::ParagraphAlignment, PV::U8(2)),
        (p::LayoutAlignmentInParent, PV::U32(0x10001)),
        (p::LayoutAlignmentSelf, PV::U32(0x80002)),
        (p::LayoutTightLayout, PV::Bool(true)),
        (p::IsTitleText, PV::Bool(false)),
        (p::RichEditTextLangId, PV::U16(1033)),
        (p::TextExtendedAscii, PV::Vec(b"ascii".to_vec())),
    ] {
        b.set(t, id, v);
    }
    t
}
/// a paragraph of embedded ink, spaces and breaks
pub fn ink_text(b: &mut B) -> Ex {
    let (base, e, sp, br) = (b.style(), emb_style(b, None), emb_style(b, Some(0x20026)), emb_style(b, Some(0x20027)));
    let (a, c) = (b.stroke(&[1, 2], &[3, 4]), b.stroke(&[-9], &[8]));
    let (d1, d2) = (b.ink_data(&[a]), b.ink_data(&[c]));
    let t = b.text("\u{fffc}", base);
    b.set(t, p::TextRunFormatting, PV::Oids(vec![e, sp, br, e]));
    b.set(t, p::TextRunIndex, idx(&[1, 2, 3]));
    b.set(t, p::TextRunData, PV::Vals(VALS, vec![ink_run(1.0), space_run(7.0), vec![], ink_run(11.0)]));
    b.set(t, p::TextRunDataObject, PV::Oids(vec![d1, d2]));
    t
}
pub fn full_list(b: &mut B) -> Ex {
    let l = b.list();
    for (id, v) in [
        (p::ListFont, PV::s("Wingdings")),
        (p::ListRestart, PV::U32(4)),
        (p::Bold, PV::Bool(true)),
        (p::Italic, PV::Bool(false)),
        (p::Font, PV::s("Arial")),
        (p::FontSize, PV::U16(18)),
        (p::FontColor, PV::U32(0x0000_00ff)),
        (p::LanguageId, PV::U32(9)),
    ] {
        b.set(l, id, v);
    }
    l
}
pub fn full_def(b: &mut B, label: &str, shape: u16) -> Ex {
    let d = b.tag_def(label, shape);
    b.set(d, p::NoteTagHighlightColor, PV::U32(0x0000_ff00));
    b.set(d, p::NoteTagTextColor, PV::U32(0xff00_0000));
    b.set(d, p::NoteTagPropertyStatus, PV::U32(0x0000_00c5));
    b.set(d, p::ActionItemType, PV::U16(101));
    d
}
pub fn full_image(b: &mut B, data: Vec<u8>, tg: Option<PV>) -> Ex {
    let i = b.image(Some(data));
    let c = match b.o(i).props.iter().find(|q| q.id == p::PictureContainer & 0x3ffffff).unwrap().v {
        PV::Oid(c) => c,
        _ => unreachable!(),
    };
    b.set(c, p::PictureFileExtension, PV::s(".png"));
    let f = b.add(jc::IFrameNode, vec![pr(p::ImageEmbedType, PV::U32(1)), prs(p::ImageEmbeddedUrl, "https://x/y")]);
    for (id, v) in [
        (p::LastModifiedTime, PV::U32(5)),
        (p::LayoutMaxWidth, PV::f(1.5)),
        (p::LayoutMaxHeight, PV::f(2.5)),
        (p::ImageAltText, PV::s("alt")),
        (p::LayoutAlignmentInParent, PV::U32(1)),
        (p::LayoutAlignmentSelf, PV::U32(2)),
        (p::ImageFilename, PV::s("pic.png")),
        (p::DisplayedPageNumber, PV::U32(3)),
        (p::RichEditTextUnicode, PV::s("ocr")),
        (p::RichEditTextLangId, PV::U16(1031)),
        (p::PictureWidth, PV::f(10.0)),
        (p::PictureHeight, PV::f(20.0)),
        (p::WzHyperlinkUrl, PV::s("http://h")),
        (p::OffsetFromParentHoriz, PV::f(0.125)),
        (p::OffsetFromParentVert, PV::f(0.375)),
        (p::IsBackground, PV::Bool(true)),
        (p::IsLayoutSizeSetByUser, PV::Bool(true)),
        (p::LanguageId, PV::U32(1)),
        (p::ContentChildNodes, PV::Oids(vec![f])),
    ] {
        b.set(i, id, v);
    }
    if let Some(t) = tg {
        b.set(i, p::NoteTags, t);
    }
    i
}
pub fn full_file(b: &mut B, data: Vec<u8>, tg: Option<PV>) -> Ex {
    let f = b.file("doc.pdf", data);
    for (id, v) in [
        (p::LayoutMaxWidth, PV::f(1.5)),
        (p::LayoutMaxHeight, PV::f(2.5)),
        (p::OffsetFromParentHoriz, PV::f(3.5)),
        (p::OffsetFromParentVert, PV::f(4.5)),
        (p::IRecordMedia, PV::U32(1)),
        (p::SourceFilepath, PV::s("c:\\x")),
        (p::RichEditTextUnicode, PV::s("t")),
        (p::RichEditTextLangId, PV::U16(2)),
        (p::PictureWidth, PV::f(1.0)),
        (p::PictureHeight, PV::f(1.0)),
        (p::LayoutAlignmentInParent, PV::U32(1)),
        (p::LayoutAlignmentSelf, PV::U32(1)),
        (p::IsLayoutSizeSetByUser, PV::Bool(false)),
    ] {
        b.set(f, id, v);
    }
    if let Some(t) = tg {
        b.set(f, p::NoteTags, t);
    }
    f
}
pub fn full_ink(b: &mut B) -> Ex {
    let s1 = b.stroke(&[1, -2, 300], &[4, 50, -600]);
    let sp = match b.o(s1).props.iter().find(|q| q.id == p::InkStrokeProperties & 0x3ffffff).unwrap().v {
        PV::Oid(c) => c,
        _ => unreachable!(),
    };
    for (id, v) in [
        (p::InkPenTip, PV::U8(1)),
        (p::InkRasterOperation, PV::U8(2)),
        (p::InkTransparency, PV::U8(3)),
        (p::InkColor, PV::U32(0xff)),
        (p::InkAntialised, PV::Bool(true)),
        (p::InkFitToCurve, PV::Bool(false)),
    ] {
        b.set(sp, id, v);
    }
    let s2 = b.stroke(&[], &[]);
    let i = b.ink(&[s1, s2]);
    let d = match b.o(i).props.iter().find(|q| q.id == p::InkData & 0x3ffffff).unwrap().v {
        PV::Oid(c) => c,
        _ => unreachable!(),
    };
    b.set(d, p::InkBoundingBox, idx(&[1, 2, 30, 40]));
    for (id, v) in [
        (p::LastModifiedTime, PV::U32(5)),
        (p::InkScalingX, PV::f(2.0)),
        (p::InkScalingY, PV::f(3.0)),
        (p::OffsetFromParentHoriz, PV::f(1.0)),
        (p::OffsetFromParentVert, PV::f(2.0)),
    ] {
        b.set(i, id, v);
    }
    i
}
pub fn full_table(b: &mut B, tg: Option<PV>) -> Ex {
    let t = b.para("cell");
    let e = b.element(1, &[t], &[]);
    let e2 = b.element(2, &[], &[]);
    let c1 = b.cell(&[e]);
    let c2 = b.cell(&[e2]);
    b.set(c1, p::CellBackgroundColor, PV::U32(0x0000_ff10));
    b.set(c1, p::LayoutMaxWidth, PV::f(8.0));
    b.set(c1, p::LastModifiedTime, PV::U32(8));
    let r = b.row(&[c1, c2]);
    b.set(r, p::LastModifiedTime, PV::U32(8));
    let t = b.table(&[r], 1, 2);
    let mut w = vec![2u8];
    w.extend(1.5f32.to_le_bytes());
    w.extend(2.5f32.to_le_bytes());
    for (id, v) in [
        (p::TableColumnWidths, PV::Vec(w)),
        (p::TableColumnsLocked, PV::Vec(vec![2, 1, 0])),
        (p::TableBordersVisible, PV::Bool(false)),
        (p::LayoutAlignmentInParent, PV::U32(1)),
        (p::LayoutAlignmentSelf, PV::U32(3)),
    ] {
        b.set(t, id, v);
    }
    if let Some(g) = tg {
        b.set(t, p::NoteTags, g);
    }
    t
}

/// everything on one page
pub fn rich() -> StoreIR {
    let mut b = B::new();
    let tt = b.para("Title");
    let ol = b.wrap(&[tt]);
    let title = b.title(&[ol]);
    let d1 = full_def(&mut b, "To Do", 3);
    let d2 = full_def(&mut b, "Idea", 13);
    let tg = |n: u32| tags(vec![tagset(Some(d1), 5, n, Some(n + 1)), tagset(None, 2, n, None), tagset(Some(d2), 0, n, None)]);
    let t1 = rich_text(&mut b);
    b.set(t1, p::NoteTags, tg(1));
    let t2 = ink_text(&mut b);
    let tab = full_table(&mut b, Some(tg(2)));
    let img = full_image(&mut b, vec![0x89, 0x50, 0x4e, 0x47, 1, 2, 3], Some(tg(3)));
    let fil = full_file(&mut b, (0..150).collect(), Some(tg(4)));
    let ink = full_ink(&mut b);
    let list = full_list(&mut b);
    let e1 = b.element(2, &[t1], &[]);
    let e2 = b.element(1, &[t2, tab, img], &[]);
    let g = b.group(1, &[e1]);
    let e3 = b.element(1, &[fil, ink], &[g]);
    b.set(e3, p::ListNodes, PV::Oids(vec![list]));
    b.set(e3, p::ListSpacingMu, PV::f(0.5));
    let o = b.outline(&[e3, e2]);
    for (id, v) in [
        (p::ListSpacingMu, PV::f(0.5)),
        (p::LayoutAlignmentInParent, PV::U32(1)),
        (p::LayoutAlignmentSelf, PV::U32(1)),
        (p::LayoutMaxHeight, PV::f(1.0)),
        (p::LayoutMaxWidth, PV::f(2.0)),
        (p::LayoutOutlineReservedWidth, PV::f(3.0)),
        (p::LayoutMinimumOutlineWidth, PV::f(4.0)),
        (p::IsLayoutSizeSetByUser, PV::Bool(true)),
        (p::OffsetFromParentHoriz, PV::f(5.0)),
        (p::OffsetFromParentVert, PV::f(6.0)),
        (p::Deletable, PV::Bool(false)),
    ] {
        b.set(o, id, v);
    }
    let i2 = b.image(None);
    let k2 = b.ink(&[]);
    let mut ir = section1(b, &[o, i2, k2], Some(title));
    for (id, v) in [
        (p::Author, PV::s("me")),
        (p::PageHeight, PV::f(1.0)),
        (p::PageWidth, PV::f(1.0)),
        (p::PageMarginLeft, PV::f(1.0)),
        (p::PageSize, PV::U8(3)),
        (p::PortraitPage, PV::Bool(true)),
        (p::CachedTitleStringFromPage, PV::s("Title")),
        (p::EditRootRtl, PV::Bool(false)),
    ] {
        ir.obj(1, xo(PAGE)).set(id, v);
    }
    ir.obj(1, xo(PMETA)).set(p::PageLevel, PV::U32(2));
    ir.obj(0, xo(SMETA)).set(p::SectionDisplayName, PV::s("Shown"));
    ir.obj(0, xo(SMETA)).set(p::SectionColor, PV::U32(0x0030_2010));
    // an older revision holding part of the objects, an unknown property of every kind
    let all = [
        PV::Empty,
        PV::U8(1),
        PV::U16(1),
        PV::U32(1),
        PV::U64(1),
        PV::Vec(vec![1, 2, 3]),
        PV::Ctx(ctx0()),
        PV::Ctxs(vec![ctx0()]),
        PV::Set(vec![pr(0x3001, PV::U8(3))]),
    ];
    for (i, v) in all.into_iter().enumerate() {
        ir.obj(1, title).props.push(Prop::new(0x2_0000 + i as u32, v));
    }
    let sp = &mut ir.spaces[1];
    let mut old = sp.revs[0].clone();
    old.rev = Ex::new(GREV, 77);
    old.manifest = eid(2077);
    old.groups[0].id = eid(2078);
    let n = old.groups[0].objs.len();
    old.groups[0].objs.truncate(n / 2);
    sp.revs[0].groups[0].objs.drain(..n / 4);
    sp.revs[0].base = old.rev;
    sp.revs.push(old);
    ir
}
/// nested table of contents naming nothing that exists
pub fn rich_toc() -> StoreIR {
    let mut objs = vec![toc_leaf(xo(10), "A.one", 2), toc_leaf(xo(11), "Grp", 1), toc_leaf(xo(12), "B^Mx.one", 2)];
    objs.push(toc_node(xo(20), &[xo(11), xo(12)]));
    let mut r = toc_node(xo(1), &[xo(10), xo(20)]);
    r.set(p::SectionColor, PV::U32(0x1122_33));
    objs.push(r);
    toc_store(objs, xo(1))
}
