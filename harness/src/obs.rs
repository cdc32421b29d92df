//! Observation of a parse result through every public accessor.
use crate::tree::*;
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::*;
use onenote_parser::property::common::*;
use onenote_parser::section::*;

macro_rules! node {
    ($n:literal, $($k:literal : $v:expr),* $(,)?) => { T::N($n, vec![$(($k, $v)),*]) };
}

pub fn notebook(n: &Notebook) -> T {
    node!("notebook", "color": n.color().map(color).unwrap_or(T::Null), "entries": lst(n.entries(), entry))
}
pub fn entry(e: &SectionEntry) -> T {
    match e {
        SectionEntry::Section(s) => section(s),
        SectionEntry::SectionGroup(g) => {
            node!("group", "name": T::s(g.display_name()), "entries": lst(g.entries(), entry))
        }
    }
}
pub fn section(s: &Section) -> T {
    node!("section",
        "name": T::s(s.display_name()),
        "color": s.color().map(color).unwrap_or(T::Null),
        "series": lst(s.page_series(), |p| lst(p.pages(), page)))
}
fn color(c: Color) -> T {
    node!("color", "a": T::I(c.alpha() as i64), "r": T::I(c.r() as i64), "g": T::I(c.g() as i64), "b": T::I(c.b() as i64))
}
fn colref(c: Option<ColorRef>) -> T {
    match c {
        None => T::Null,
        Some(ColorRef::Auto) => T::s("auto"),
        Some(ColorRef::Manual { r, g, b }) => T::L(vec![T::I(r as i64), T::I(g as i64), T::I(b as i64)]),
    }
}
// the alignment type is not nameable, its accessors are
macro_rules! align {
    ($e:expr) => {
        match $e {
            None => T::Null,
            Some(a) => node!("align",
                "h": dbg(&a.alignment_horizontal()),
                "hm": dbg(&a.alignment_margin_horizontal()),
                "v": dbg(&a.alignment_vertical()),
                "vm": dbg(&a.alignment_margin_vertical())),
        }
    };
}
fn page(p: &Page) -> T {
    node!("page",
        "title": p.title().map(title).unwrap_or(T::Null),
        "level": T::I(p.level() as i64),
        "author": so(p.author()),
        "height": fo(p.height()),
        "contents": lst(p.contents(), |c| {
            // the variant and the convenience accessors must agree
            let acc = [c.outline().is_some(), c.image().is_some(), c.embedded_file().is_some(), c.ink().is_some()];
            let (t, want) = match c {
                PageContent::Outline(o) => (outline(o), [true, false, false, false]),
                PageContent::Image(o) => (image(o), [false, true, false, false]),
                PageContent::EmbeddedFile(o) => (file(o), [false, false, true, false]),
                PageContent::Ink(o) => (ink(o), [false, false, false, true]),
                PageContent::Unknown => (T::s("unknown"), [false; 4]),
            };
            if acc != want { T::s("accessor mismatch") } else { t }
        }),
        "title_text": so(p.title_text()))
}
fn title(t: &Title) -> T {
    node!("title",
        "contents": lst(t.contents(), outline),
        "x": T::f(t.offset_horizontal()), "y": T::f(t.offset_vertical()),
        "ap": align!(t.layout_alignment_in_parent()), "as": align!(t.layout_alignment_self()))
}
fn outline(o: &Outline) -> T {
    node!("outline",
        "items": lst(o.items(), item),
        "level": T::I(o.child_level() as i64),
        "list_spacing": fo(o.list_spacing()),
        "indents": lst(o.indents(), |f| T::f(*f)),
        "ap": align!(o.alignment_in_parent()), "as": align!(o.alignment_self()),
        "max_h": fo(o.layout_max_height()), "max_w": fo(o.layout_max_width()),
        "reserved_w": fo(o.layout_reserved_width()), "min_w": fo(o.layout_minimum_outline_width()),
        "by_user": T::B(o.is_layout_size_set_by_user()),
        "x": fo(o.offset_horizontal()), "y": fo(o.offset_vertical()))
}
fn item(i: &OutlineItem) -> T {
    match i {
        OutlineItem::Group(g) => {
            if i.element().is_some() {
                return T::s("accessor mismatch");
            }
            node!("ogroup", "level": T::I(g.child_level() as i64), "items": lst(g.outlines(), item))
        }
        OutlineItem::Element(e) => {
            if i.element().is_none() {
                return T::s("accessor mismatch");
            }
            element(e)
        }
    }
}
fn element(e: &OutlineElement) -> T {
    node!("element",
        "contents": lst(e.contents(), content),
        "lists": lst(e.list_contents(), list),
        "list_spacing": fo(e.list_spacing()),
        "level": T::I(e.child_level() as i64),
        "children": lst(e.children(), item))
}
fn content(c: &Content) -> T {
    let acc = [
        c.rich_text().is_some(),
        c.table().is_some(),
        c.image().is_some(),
        c.embedded_file().is_some(),
        c.ink().is_some(),
    ];
    let (t, i) = match c {
        Content::RichText(x) => (text(x), 0),
        Content::Table(x) => (table(x), 1),
        Content::Image(x) => (image(x), 2),
        Content::EmbeddedFile(x) => (file(x), 3),
        Content::Ink(x) => (ink(x), 4),
        Content::Unknown => (T::s("unknown"), 9),
    };
    if acc.iter().enumerate().any(|(k, a)| *a != (k == i)) { T::s("accessor mismatch") } else { t }
}
fn list(l: &List) -> T {
    node!("list",
        "list_font": so(l.list_font()),
        "restart": io(l.list_restart()),
        "format": lst(l.list_format(), |c| T::I(*c as i64)),
        "bold": T::B(l.bold()), "italic": T::B(l.italic()),
        "font": so(l.font()), "size": io(l.font_size()), "color": colref(l.font_color()))
}
fn tags(v: &[NoteTag]) -> T {
    lst(v, |t| {
        let s = t.item_status();
        node!("tag",
            "completed": dbo(&t.completed_at()),
            "st_completed": T::B(s.completed()), "st_disabled": T::B(s.disabled()), "st_task": T::B(s.task_tag()),
            "def": t.definition().map(|d| {
                let p = d.status();
                node!("tagdef",
                    "label": T::s(d.label()),
                    "shape": dbg(&d.shape()),
                    "checkable": T::B(d.shape().is_checkable()),
                    "hl": colref(d.highlight_color()), "col": colref(d.text_color()),
                    "action": dbg(&d.action_item_type()),
                    "has_label": T::B(p.has_label()), "has_font_color": T::B(p.has_font_color()),
                    "has_highlight": T::B(p.has_highlight_color()), "has_icon": T::B(p.has_icon()),
                    "due_today": T::B(p.due_today()), "due_tomorrow": T::B(p.due_tomorrow()),
                    "due_this_week": T::B(p.due_this_week()), "due_next_week": T::B(p.due_next_week()),
                    "due_later": T::B(p.due_later()), "due_custom": T::B(p.due_custom()))
            }).unwrap_or(T::Null))
    })
}
fn image(i: &Image) -> T {
    node!("image",
        "data": i.data().map(|d| T::Y(d.to_vec())).unwrap_or(T::Null),
        "ext": so(i.extension()),
        "max_w": fo(i.layout_max_width()), "max_h": fo(i.layout_max_height()),
        "alt": so(i.alt_text()),
        "ap": align!(i.layout_alignment_in_parent()), "as": align!(i.layout_alignment_self()),
        "filename": so(i.image_filename()),
        "page_no": io(i.displayed_page_number()),
        "text": so(i.text()), "lang": io(i.text_language_code()),
        "pic_w": fo(i.picture_width()), "pic_h": fo(i.picture_height()),
        "url": so(i.hyperlink_url()),
        "x": fo(i.offset_horizontal()), "y": fo(i.offset_vertical()),
        "background": T::B(i.is_background()),
        "tags": tags(i.note_tags()),
        "embeds": lst(i.embeds(), |e| node!("iframe", "type": io(e.embed_type()), "url": T::s(e.source_url()))))
}
fn file(f: &EmbeddedFile) -> T {
    node!("file",
        "name": T::s(f.filename()),
        "type": dbg(f.file_type()),
        "data": T::Y(f.data().to_vec()),
        "max_w": fo(f.layout_max_width()), "max_h": fo(f.layout_max_height()),
        "x": fo(f.offset_horizontal()), "y": fo(f.offset_vertical()),
        "tags": tags(f.note_tags()))
}
fn bb(b: Option<InkBoundingBox>) -> T {
    match b {
        None => T::Null,
        // scaling by a factor multiplies every field
        Some(b) if [0.5f32, -3.0].iter().any(|k| {
            let c = b.scale(*k);
            [(c.x(), b.x()), (c.y(), b.y()), (c.height(), b.height()), (c.width(), b.width())]
                .iter()
                .any(|(n, o)| n.to_bits() != (o * k).to_bits() && !n.is_nan())
        }) => T::s("scale mismatch"),
        Some(b) => node!("box", "x": T::f(b.x()), "y": T::f(b.y()), "h": T::f(b.height()), "w": T::f(b.width())),
    }
}
fn ink(i: &Ink) -> T {
    node!("ink",
        "strokes": lst(i.ink_strokes(), |s| node!("stroke",
            "path": lst(s.path(), |p| T::L(vec![T::f(p.x()), T::f(p.y())])),
            "tip": io(s.pen_tip()), "transparency": io(s.transparency()),
            "h": T::f(s.height()), "w": T::f(s.width()), "color": io(s.color()))),
        "bb": bb(i.bounding_box()),
        "x": fo(i.offset_horizontal()), "y": fo(i.offset_vertical()))
}
fn style(s: &ParagraphStyling) -> T {
    node!("style",
        "charset": dbo(&s.charset()),
        "bold": T::B(s.bold()), "italic": T::B(s.italic()), "underline": T::B(s.underline()),
        "strike": T::B(s.strikethrough()), "super": T::B(s.superscript()), "sub": T::B(s.subscript()),
        "font": so(s.font()), "size": io(s.font_size()),
        "color": colref(s.font_color()), "highlight": colref(s.highlight()),
        "next": so(s.next_style()), "id": so(s.style_id()),
        "align": dbo(&s.paragraph_alignment()),
        "before": fo(s.paragraph_space_before()), "after": fo(s.paragraph_space_after()),
        "exact": fo(s.paragraph_line_spacing_exact()),
        "lang": io(s.language_code()),
        "math": T::B(s.math_formatting()), "link": T::B(s.hyperlink()))
}
fn text(t: &RichText) -> T {
    node!("text",
        "text": T::s(t.text()),
        "styles": lst(t.text_run_formatting(), style),
        "indices": lst(t.text_run_indices(), |i| T::I(*i as i64)),
        "style": style(t.paragraph_style()),
        "before": T::f(t.paragraph_space_before()), "after": T::f(t.paragraph_space_after()),
        "exact": fo(t.paragraph_line_spacing_exact()),
        "align": dbg(&t.paragraph_alignment()),
        "ap": align!(t.layout_alignment_in_parent()), "as": align!(t.layout_alignment_self()),
        "tags": tags(t.note_tags()),
        "objects": lst(t.embedded_objects(), |o| match o {
            EmbeddedObject::Ink(c) => node!("eink", "ink": ink(c.ink()), "bb": bb(c.bounding_box().copied())),
            EmbeddedObject::InkSpace(s) => node!("espace", "h": T::f(s.height()), "w": T::f(s.width())),
            EmbeddedObject::InkLineBreak => T::s("break"),
        }),
        "math": lst(t.math_inline_objects(), |m| node!("math",
            "type": dbg(&m.object_type()), "args": T::I(m.arg_count() as i64),
            "col": io(m.column()), "align": io(m.align()),
            "char": io(m.char().map(|c| c as u32)), "char1": io(m.char1().map(|c| c as u32)),
            "char2": io(m.char2().map(|c| c as u32)))))
}
fn table(t: &Table) -> T {
    node!("table",
        "rows": T::I(t.rows() as i64), "cols": T::I(t.cols() as i64),
        "contents": lst(t.contents(), |r| lst(r.contents(), |c| node!("cell",
            "contents": lst(c.contents(), element),
            "color": c.background_color().map(color).unwrap_or(T::Null),
            "max_w": fo(c.layout_max_width()),
            "indents": lst(c.outline_indent_distance().value(), |f| T::f(*f))))),
        "locked": T::Y(t.cols_locked().to_vec()),
        "widths": lst(t.col_widths(), |f| T::f(*f)),
        "borders": T::B(t.borders_visible()),
        "ap": align!(t.layout_alignment_in_parent()), "as": align!(t.layout_alignment_self()),
        "tags": tags(t.note_tags()))
}
