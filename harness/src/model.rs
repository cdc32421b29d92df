//! Reference semantics: the result a decoded store must produce, written as an
//! interpreter over the abstract store (objects with typed property trees and
//! direct references), independent of the library's reader.
#![allow(dead_code)]
use crate::enc::*;
use crate::ids::*;
use crate::store::*;
use crate::tree::*;
use std::collections::HashMap;

/// Err: the library has to report an error.  Any: no claim beyond not crashing.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum X {
    Err,
    Any,
}
pub type XR<A> = Result<A, X>;

macro_rules! node {
    ($n:literal, $($k:literal : $v:expr),* $(,)?) => { T::N($n, vec![$(($k, $v)),*]) };
}

/// Visible state of one object space.
pub struct Sp<'a> {
    pub objs: HashMap<Ex, &'a Obj>,
    pub roots: HashMap<u32, Ex>,
    pub blobs: &'a HashMap<Ex, &'a [u8]>,
    pub limit: usize,
    /// objects being expanded, and the number of expansions so far
    path: std::cell::RefCell<(Vec<Ex>, usize)>,
}
pub struct St<'a> {
    pub spaces: Vec<(Cell, Sp<'a>)>,
}

// ------------------------------------------------------------- raw values

fn pv<'a>(o: &'a [Prop], id: u32) -> Option<&'a PV> {
    let id = id & 0x3ffffff;
    o.iter().find(|p| p.id == id).map(|p| &p.v)
}
fn opt<'a, A>(o: &'a [Prop], id: u32, f: impl Fn(&'a PV) -> Option<A>) -> XR<Option<A>> {
    match pv(o, id) {
        None => Ok(None),
        Some(v) => f(v).map(Some).ok_or(X::Err),
    }
}
fn u8o(o: &[Prop], id: u32) -> XR<Option<u8>> {
    opt(o, id, |v| if let PV::U8(x) = v { Some(*x) } else { None })
}
fn u16o(o: &[Prop], id: u32) -> XR<Option<u16>> {
    opt(o, id, |v| if let PV::U16(x) = v { Some(*x) } else { None })
}
fn u32o(o: &[Prop], id: u32) -> XR<Option<u32>> {
    opt(o, id, |v| if let PV::U32(x) = v { Some(*x) } else { None })
}
fn u64o(o: &[Prop], id: u32) -> XR<Option<u64>> {
    opt(o, id, |v| if let PV::U64(x) = v { Some(*x) } else { None })
}
fn boo(o: &[Prop], id: u32, d: bool) -> XR<bool> {
    Ok(opt(o, id, |v| if let PV::Bool(x) = v { Some(*x) } else { None })?.unwrap_or(d))
}
fn veo(o: &[Prop], id: u32) -> XR<Option<&[u8]>> {
    opt(o, id, |v| if let PV::Vec(x) = v { Some(&x[..]) } else { None })
}
fn flo(o: &[Prop], id: u32) -> XR<T> {
    Ok(u32o(o, id)?.map(T::F).unwrap_or(T::Null))
}
fn fld(o: &[Prop], id: u32) -> XR<T> {
    Ok(T::F(u32o(o, id)?.unwrap_or(0)))
}
fn req<A>(v: Option<A>) -> XR<A> {
    v.ok_or(X::Err)
}
pub fn text16(b: &[u8]) -> XR<String> {
    let u: Vec<u16> =
        b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).take_while(|u| *u != 0).collect();
    let mut s = String::new();
    let mut i = 0;
    while i < u.len() {
        let a = u[i] as u32;
        let c = if (0xd800..0xdc00).contains(&a) {
            let b = *u.get(i + 1).ok_or(X::Err)? as u32;
            if !(0xdc00..0xe000).contains(&b) {
                return Err(X::Err);
            }
            i += 1;
            0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
        } else if (0xdc00..0xe000).contains(&a) {
            return Err(X::Err);
        } else {
            a
        };
        s.push(char::from_u32(c).unwrap());
        i += 1;
    }
    Ok(s)
}
fn sto(o: &[Prop], id: u32) -> XR<Option<String>> {
    veo(o, id)?.map(text16).transpose()
}
fn st(o: &[Prop], id: u32) -> XR<T> {
    Ok(sto(o, id)?.map(T::S).unwrap_or(T::Null))
}
// a nil reference names no object
fn oid(o: &[Prop], id: u32) -> XR<Option<Ex>> {
    Ok(opt(o, id, |v| if let PV::Oid(x) = v { Some(*x) } else { None })?.filter(|x| !x.is_nil()))
}
fn oids(o: &[Prop], id: u32) -> XR<Option<Vec<Ex>>> {
    opt(o, id, |v| if let PV::Oids(x) = v { Some(x.iter().filter(|x| !x.is_nil()).copied().collect()) } else { None })
}
fn guid(o: &[Prop], id: u32) -> XR<Option<()>> {
    match veo(o, id)? {
        None => Ok(None),
        Some(b) if b.len() >= 16 => Ok(Some(())),
        Some(_) => Err(X::Err),
    }
}
fn color(o: &[Prop], id: u32) -> XR<T> {
    Ok(match u32o(o, id)? {
        None => T::Null,
        Some(v) => {
            let by = |i: u32| ((v >> (8 * i)) & 0xff) as i64;
            node!("color", "a": T::I(255 - by(3)), "r": T::I(by(0)), "g": T::I(by(1)), "b": T::I(by(2)))
        }
    })
}
fn colref(o: &[Prop], id: u32) -> XR<T> {
    Ok(match u32o(o, id)? {
        None => T::Null,
        Some(v) if v >> 24 == 0xff => T::s("auto"),
        Some(v) if v >> 24 == 0 => {
            T::L(vec![T::I((v & 255) as i64), T::I((v >> 8 & 255) as i64), T::I((v >> 16 & 255) as i64)])
        }
        _ => return Err(X::Err),
    })
}
fn align(o: &[Prop], id: u32) -> XR<T> {
    let v = match u32o(o, id)? {
        None => return Ok(T::Null),
        Some(v) => v,
    };
    if v & 0x8000_0000 != 0 {
        return Ok(T::Null);
    }
    let h = ["Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse"];
    let hv = *h.get((v & 7) as usize).ok_or(X::Err)?;
    Ok(node!("align",
        "h": T::s(hv),
        "hm": T::s(if v & 8 != 0 { "Left" } else { "Right" }),
        "v": T::s(if v & 0x10000 != 0 { "Top" } else { "Bottom" }),
        "vm": T::s(if v & 0x80000 != 0 { "Top" } else { "Bottom" })))
}
fn par_align(o: &[Prop]) -> XR<Option<&'static str>> {
    Ok(u8o(o, p::ParagraphAlignment)?.map(|v| match v {
        0 => "Left",
        1 => "Center",
        2 => "Right",
        _ => "Unknown",
    }))
}
fn floats(b: &[u8]) -> T {
    T::L(b.chunks_exact(4).map(|c| T::F(u32::from_le_bytes([c[0], c[1], c[2], c[3]]))).collect())
}
fn indents(o: &[Prop]) -> XR<T> {
    let b = req(veo(o, p::RgOutlineIndentDistance)?)?;
    let n = *b.first().ok_or(X::Err)? as usize;
    if b.len() < 4 + 4 * n {
        return Err(X::Err);
    }
    Ok(floats(&b[4..4 + 4 * n]))
}
fn charset(v: u8) -> XR<&'static str> {
    Ok(match v {
        0 => "Ansi",
        1 => "Default",
        2 => "Symbol",
        77 => "Mac",
        128 => "ShiftJis",
        129 => "Hangul",
        130 => "Johab",
        134 => "Gb2312",
        136 => "ChineseBig5",
        161 => "Greek",
        162 => "Turkish",
        163 => "Vietnamese",
        177 => "Hebrew",
        178 => "Arabic",
        186 => "Baltic",
        204 => "Russian",
        222 => "Thai",
        238 => "EastEurope",
        255 => "Oem",
        _ => return Err(X::Err),
    })
}
pub const MATH: &[&str] = &[
    "Accent", "Box", "BoxedFormula", "Brackets", "BracketsWithSeps", "EquationArray", "Fraction", "FunctionApply",
    "LeftSubSup", "LowerLimit", "Matrix", "Nary", "OpChar", "Overbar", "Phantom", "Radical", "SlashedFraction",
    "Stack", "StretchStack", "Subscript", "SubSup", "Superscript", "Underbar", "UpperLimit",
];
fn math_type(v: u32) -> XR<&'static str> {
    Ok(match v {
        0 => "SimpleText",
        10..=33 => MATH[v as usize - 10],
        0x9000_0000 => "PlainText",
        _ => return Err(X::Err),
    })
}
fn action(v: u16) -> String {
    match v {
        0..=99 => format!("Numeric({v})"),
        100 => "DueToday".into(),
        101 => "DueTomorrow".into(),
        102 => "DueThisWeek".into(),
        103 => "DueNextWeek".into(),
        104 => "NoDueDate".into(),
        105 => "CustomDueDate".into(),
        _ => "Unknown".into(),
    }
}

/// [MS-ISF] packed signed numbers
pub fn isf_signed(b: &[u8]) -> XR<Vec<i64>> {
    fn one(b: &[u8], i: &mut usize) -> XR<u64> {
        let mut v: u128 = 0;
        let mut k = 0;
        loop {
            let x = *b.get(*i).ok_or(X::Err)?;
            *i += 1;
            if k >= 10 {
                return Err(X::Err);
            }
            v |= ((x & 0x7f) as u128) << (7 * k);
            k += 1;
            if x & 0x80 == 0 {
                break;
            }
        }
        u64::try_from(v).map_err(|_| X::Err)
    }
    let mut i = 0;
    let n = one(b, &mut i)? >> 1;
    let mut out = vec![];
    for _ in 0..n {
        let v = one(b, &mut i)?;
        let m = (v >> 1) as i64;
        out.push(if v & 1 == 1 { -m } else { m });
    }
    Ok(out)
}

// ------------------------------------------------------------- interpreter

impl<'a> St<'a> {
    pub fn new(ir: &'a StoreIR, blobs: &'a HashMap<Ex, &'a [u8]>) -> XR<St<'a>> {
        let mut spaces = vec![];
        for s in &ir.spaces {
            let mut objs = HashMap::new();
            let mut roots = HashMap::new();
            for r in &s.revs {
                for (k, v) in &r.roots {
                    if !(1..=4).contains(k) {
                        return Err(X::Err);
                    }
                    roots.entry(*k).or_insert(*v);
                }
                for g in &r.groups {
                    for o in &g.objs {
                        objs.entry(o.id).or_insert(o);
                    }
                }
            }
            // objects whose file data is missing make the whole file unreadable
            for o in objs.values() {
                if let Some(b) = o.blob {
                    if !blobs.contains_key(&b) {
                        return Err(X::Err);
                    }
                }
            }
            spaces.push((s.cell, Sp { objs, roots, blobs, limit: 40, path: Default::default() }));
        }
        Ok(St { spaces })
    }
    pub fn section(&self, filename: &str) -> XR<T> {
        let r = &self.spaces[0].1;
        let m = r.root(2, jc::SectionMetadata)?;
        req(u32o(m, p::SchemaRevisionInOrderToRead)?)?;
        req(u32o(m, p::SchemaRevisionInOrderToWrite)?)?;
        let dn = sto(m, p::SectionDisplayName)?;
        let col = color(m, p::SectionColor)?;
        let s = r.root(1, jc::SectionNode)?;
        req(guid(s, p::NotebookManagementEntityGuid)?)?;
        req(u64o(s, p::TopologyCreationTimeStamp)?)?;
        let mut series = vec![];
        for id in &oids(s, p::ElementChildNodes)?.unwrap_or_default() {
            series.push(self.series(*id)?);
        }
        let name = dn.unwrap_or_else(|| filename.strip_suffix(".one").unwrap_or(filename).to_string());
        Ok(node!("section", "name": T::S(name), "color": col, "series": T::L(series)))
    }
    fn series(&self, id: Ex) -> XR<T> {
        let o = self.spaces[0].1.get(id, jc::PageSeriesNode)?;
        req(guid(o, p::NotebookManagementEntityGuid)?)?;
        u64o(o, p::TopologyCreationTimeStamp)?;
        oids(o, p::MetaDataObjectsAboveGraphSpace)?;
        let cells = opt(o, p::ChildGraphSpaceElementNodes, |v| if let PV::Osids(x) = v { Some(&x[..]) } else { None })?
            .unwrap_or(&[]);
        let mut pages = vec![];
        for c in cells {
            // the data root itself is not addressable as a page space
            let sp = self.spaces[1..].iter().find(|(k, _)| k == c).ok_or(X::Err)?;
            pages.push(sp.1.page()?);
        }
        Ok(T::L(pages))
    }
    /// (order number, name) in discovery order plus the colour of the root
    pub fn toc(&self) -> XR<(Vec<String>, T)> {
        let r = &self.spaces[0].1;
        let id = req(r.roots.get(&1).copied())?;
        let (mut e, col) = r.toc(id, 0)?;
        e.sort_by_key(|x| x.0);
        let mut names: Vec<String> = vec![];
        for (_, n) in e {
            if names.last() != Some(&n) {
                names.push(n);
            }
        }
        Ok((names, col))
    }
}

impl<'a> Sp<'a> {
    /// Expand an object that may contain others: an object inside itself is
    /// an error, very deep or heavily shared content may be refused.
    fn enter(&self, id: Ex, d: usize, f: impl FnOnce() -> XR<T>) -> XR<T> {
        let mut p = self.path.borrow_mut();
        if p.0.contains(&id) {
            return Err(X::Err);
        }
        p.1 += 1;
        if d > self.limit || p.1 > self.objs.len().max(1000) {
            return Err(X::Any);
        }
        p.0.push(id);
        drop(p);
        let r = f();
        self.path.borrow_mut().0.pop();
        r
    }
    fn get(&self, id: Ex, jcid: u32) -> XR<&'a [Prop]> {
        let o = self.objs.get(&id).ok_or(X::Err)?;
        if o.jcid != jcid { Err(X::Err) } else { Ok(&o.props) }
    }
    fn root(&self, role: u32, jcid: u32) -> XR<&'a [Prop]> {
        let id = *self.roots.get(&role).ok_or(X::Err)?;
        self.get(id, jcid)
    }
    fn toc(&self, id: Ex, depth: usize) -> XR<(Vec<(u32, String)>, T)> {
        let o = self.get(id, jc::TocContainer)?;
        let name = sto(o, p::FolderChildFilename)?.map(|s| s.replace("^M", "+").replace("^J", ","));
        let ord = u32o(o, p::NotebookElementOrderingId)?;
        let col = color(o, p::SectionColor)?;
        let kids = &oids(o, p::TocChildren)?.unwrap_or_default();
        if let Some(n) = name {
            return Ok((vec![(req(ord)?, n)], col));
        }
        let mut v = vec![];
        self.enter(id, depth, || {
            for k in kids {
                v.extend(self.toc(*k, depth + 1)?.0);
            }
            Ok(T::Null)
        })?;
        Ok((v, col))
    }
    fn page(&self) -> XR<T> {
        let m = self.root(2, jc::PageMetadata)?;
        req(guid(m, p::NotebookManagementEntityGuid)?)?;
        req(sto(m, p::CachedTitleString)?)?;
        u32o(m, p::SchemaRevisionInOrderToRead)?;
        u32o(m, p::SchemaRevisionInOrderToWrite)?;
        let level = u32o(m, p::PageLevel)?.unwrap_or(0) as i32;
        req(u64o(m, p::TopologyCreationTimeStamp)?)?;
        boo(m, p::IsDeletedGraphSpaceContent, false)?;
        let mf = self.root(1, jc::PageManifestNode)?;
        let pid = oids(mf, p::ContentChildNodes)?.and_then(|v| v.first().copied()).ok_or(X::Err)?;
        let o = self.get(pid, jc::PageNode)?;
        u32o(o, p::LastModifiedTime)?;
        sto(o, p::CachedTitleStringFromPage)?;
        boo(o, p::PortraitPage, false)?;
        for f in [
            p::PageWidth, p::PageMarginOriginX, p::PageMarginOriginY, p::PageMarginLeft, p::PageMarginRight,
            p::PageMarginTop, p::PageMarginBottom,
        ] {
            flo(o, f)?;
        }
        if u8o(o, p::PageSize)?.unwrap_or(0) > 15 {
            return Err(X::Err);
        }
        boo(o, p::EditRootRtl, false)?;
        let author = st(o, p::Author)?;
        let height = flo(o, p::PageHeight)?;
        let title = match oids(o, p::StructureElementChildNodes)?.and_then(|v| v.first().copied()) {
            None => T::Null,
            Some(t) => self.title(t)?,
        };
        let mut contents = vec![];
        for c in &oids(o, p::ElementChildNodes)?.unwrap_or_default() {
            contents.push(self.page_content(*c)?);
        }
        let tt = title_text(&title, &contents);
        Ok(node!("page", "title": title, "level": T::I(level as i64), "author": author, "height": height,
            "contents": T::L(contents), "title_text": tt))
    }
    fn title(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::TitleNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        let mut c = vec![];
        for k in &req(oids(o, p::ElementChildNodes)?)? {
            c.push(self.outline(*k, 0)?);
        }
        let x = req(u32o(o, p::OffsetFromParentHoriz)?)?;
        let y = req(u32o(o, p::OffsetFromParentVert)?)?;
        Ok(node!("title", "contents": T::L(c), "x": T::F(x), "y": T::F(y),
            "ap": align(o, p::LayoutAlignmentInParent)?, "as": align(o, p::LayoutAlignmentSelf)?))
    }
    fn jcid(&self, id: Ex) -> XR<u32> {
        let j = self.objs.get(&id).ok_or(X::Err)?.jcid;
        if jc::ALL.contains(&j) { Ok(j) } else { Err(X::Err) }
    }
    fn page_content(&self, id: Ex) -> XR<T> {
        match self.jcid(id)? {
            jc::ImageNode => self.image(id),
            jc::EmbeddedFileNode => self.file(id),
            jc::OutlineNode => self.outline(id, 0),
            jc::InkContainer => self.ink(id),
            _ => Ok(T::s("unknown")),
        }
    }
    fn outline(&self, id: Ex, d: usize) -> XR<T> {
        let o = self.get(id, jc::OutlineNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        let level = req(u8o(o, p::OutlineElementChildLevel)?)?;
        for b in [
            p::LayoutTightAlignment, p::Deletable, p::IsTitleDate, p::CannotBeSelected, p::IsTitleText, p::IsReadOnly,
            p::DescendantsCannotBeMoved, p::LayoutTightLayout,
        ] {
            boo(o, b, false)?;
        }
        let ind = indents(o)?;
        let mut items = vec![];
        for k in &oids(o, p::ElementChildNodes)?.unwrap_or_default() {
            items.push(self.item(*k, d + 1)?);
        }
        Ok(node!("outline", "items": T::L(items), "level": T::I(level as i64),
            "list_spacing": flo(o, p::ListSpacingMu)?, "indents": ind,
            "ap": align(o, p::LayoutAlignmentInParent)?, "as": align(o, p::LayoutAlignmentSelf)?,
            "max_h": flo(o, p::LayoutMaxHeight)?, "max_w": flo(o, p::LayoutMaxWidth)?,
            "reserved_w": flo(o, p::LayoutOutlineReservedWidth)?, "min_w": flo(o, p::LayoutMinimumOutlineWidth)?,
            "by_user": T::B(boo(o, p::IsLayoutSizeSetByUser, false)?),
            "x": flo(o, p::OffsetFromParentHoriz)?, "y": flo(o, p::OffsetFromParentVert)?))
    }
    fn item(&self, id: Ex, d: usize) -> XR<T> {
        match self.jcid(id)? {
            jc::OutlineGroup => {
                let o = self.get(id, jc::OutlineGroup)?;
                req(u32o(o, p::LastModifiedTime)?)?;
                let level = req(u8o(o, p::OutlineElementChildLevel)?)?;
                self.enter(id, d, || {
                    let mut items = vec![];
                    for k in &oids(o, p::ElementChildNodes)?.unwrap_or_default() {
                        items.push(self.item(*k, d + 1)?);
                    }
                    Ok(node!("ogroup", "level": T::I(level as i64), "items": T::L(items)))
                })
            }
            jc::OutlineElementNode => self.element(id, d),
            _ => Err(X::Err),
        }
    }
    fn element(&self, id: Ex, d: usize) -> XR<T> {
        self.enter(id, d, || self.element0(id, d))
    }
    fn element0(&self, id: Ex, d: usize) -> XR<T> {
        let o = self.get(id, jc::OutlineElementNode)?;
        req(u32o(o, p::CreationTimeStamp)?)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        let level = req(u8o(o, p::OutlineElementChildLevel)?)?;
        req(oid(o, p::AuthorOriginal)?)?;
        req(oid(o, p::AuthorMostRecent)?)?;
        for b in [p::OutlineElementRtl, p::Deletable, p::CannotBeSelected, p::IsTitleText] {
            boo(o, b, false)?;
        }
        let mut children = vec![];
        for k in &oids(o, p::ElementChildNodes)?.unwrap_or_default() {
            children.push(self.item(*k, d + 1)?);
        }
        let mut contents = vec![];
        for k in &oids(o, p::ContentChildNodes)?.unwrap_or_default() {
            contents.push(self.content(*k, d)?);
        }
        let mut lists = vec![];
        for k in &oids(o, p::ListNodes)?.unwrap_or_default() {
            lists.push(self.list(*k)?);
        }
        Ok(node!("element", "contents": T::L(contents), "lists": T::L(lists),
            "list_spacing": flo(o, p::ListSpacingMu)?, "level": T::I(level as i64), "children": T::L(children)))
    }
    fn content(&self, id: Ex, d: usize) -> XR<T> {
        match self.jcid(id)? {
            jc::ImageNode => self.image(id),
            jc::EmbeddedFileNode => self.file(id),
            jc::RichTextNode => self.text(id),
            jc::TableNode => self.table(id, d),
            jc::InkContainer => self.ink(id),
            _ => Ok(T::s("unknown")),
        }
    }
    fn list(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::NumberListNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        let f = req(veo(o, p::NumberListFormat)?)?;
        let u: Vec<u16> = f.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).skip(1).collect();
        let mut fmt = vec![];
        let mut i = 0;
        while i < u.len() {
            let a = u[i] as i64;
            if (0xd800..0xdc00).contains(&a) && i + 1 < u.len() && (0xdc00..0xe000).contains(&u[i + 1]) {
                fmt.push(T::I(0x10000 + ((a - 0xd800) << 10) + (u[i + 1] as i64 - 0xdc00)));
                i += 1;
            } else if (0xd800..0xe000).contains(&a) {
                fmt.push(T::I(0xfffd));
            } else {
                fmt.push(T::I(a));
            }
            i += 1;
        }
        // an empty format has no length prefix at all: nothing is promised
        if f.len() < 2 {
            return Err(X::Any);
        }
        u32o(o, p::LanguageId)?;
        Ok(node!("list",
            "list_font": st(o, p::ListFont)?,
            "restart": u32o(o, p::ListRestart)?.map(|v| T::I(v as i32 as i64)).unwrap_or(T::Null),
            "format": T::L(fmt),
            "bold": T::B(boo(o, p::Bold, false)?), "italic": T::B(boo(o, p::Italic, false)?),
            "font": st(o, p::Font)?, "size": io(u16o(o, p::FontSize)?), "color": colref(o, p::FontColor)?))
    }
    fn tags(&self, o: &'a [Prop]) -> XR<T> {
        let sets = match pv(o, p::NoteTags) {
            None => return Ok(T::L(vec![])),
            Some(PV::Vals(_, s)) => s,
            Some(_) => return Err(X::Err),
        };
        let mut out = vec![];
        for s in sets {
            req(u32o(s, p::NoteTagCreated)?)?;
            let done = u32o(s, p::NoteTagCompleted)?;
            let status = req(u16o(s, p::ActionItemStatus)?)?;
            let def = match oid(s, p::NoteTagDefinitionOid)? {
                None => T::Null,
                Some(id) => self.tag_def(id)?,
            };
            out.push(node!("tag",
                "completed": done.map(|d| T::S(format!("Time({d})"))).unwrap_or(T::Null),
                "st_completed": T::B(status & 1 != 0), "st_disabled": T::B(status & 2 != 0),
                "st_task": T::B(status & 4 != 0), "def": def));
        }
        Ok(T::L(out))
    }
    fn tag_def(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::NoteTagSharedDefinitionContainer)?;
        let label = req(sto(o, p::NoteTagLabel)?)?;
        let f = req(u32o(o, p::NoteTagPropertyStatus)?)?;
        let sh = req(u16o(o, p::NoteTagShape)?)?;
        let shape = *SHAPES.get(sh as usize).ok_or(X::Err)?;
        let act = req(u16o(o, p::ActionItemType)?)?;
        let bit = |n: u32| T::B(f >> n & 1 != 0);
        Ok(node!("tagdef", "label": T::S(label), "shape": T::s(shape),
            "checkable": T::B(CHECKABLE.contains(&shape)),
            "hl": colref(o, p::NoteTagHighlightColor)?, "col": colref(o, p::NoteTagTextColor)?,
            "action": T::S(action(act)),
            "has_label": bit(0), "has_font_color": bit(1), "has_highlight": bit(2), "has_icon": bit(3),
            "due_today": bit(6), "due_tomorrow": bit(7), "due_this_week": bit(8), "due_next_week": bit(9),
            "due_later": bit(10), "due_custom": bit(11)))
    }
    fn blob(&self, id: Ex) -> Option<&'a [u8]> {
        self.objs.get(&id).and_then(|o| o.blob).map(|b| self.blobs[&b])
    }
    fn image(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::ImageNode)?;
        u32o(o, p::LastModifiedTime)?;
        boo(o, p::IsLayoutSizeSetByUser, false)?;
        u32o(o, p::LanguageId)?;
        let (data, ext) = match oid(o, p::PictureContainer)? {
            None => (T::Null, T::Null),
            Some(c) => {
                let k = self.objs.get(&c).ok_or(X::Err)?;
                if k.jcid != jc::PictureContainer && k.jcid != jc::XpsContainer {
                    return Err(X::Err);
                }
                (T::Y(self.blob(c).map(|b| b.to_vec()).unwrap_or_default()), st(&k.props, p::PictureFileExtension)?)
            }
        };
        let mut em = vec![];
        for k in &oids(o, p::ContentChildNodes)?.unwrap_or_default() {
            let f = self.get(*k, jc::IFrameNode)?;
            em.push(node!("iframe", "type": io(u32o(f, p::ImageEmbedType)?),
                "url": T::S(req(sto(f, p::ImageEmbeddedUrl)?)?)));
        }
        Ok(node!("image", "data": data, "ext": ext,
            "max_w": flo(o, p::LayoutMaxWidth)?, "max_h": flo(o, p::LayoutMaxHeight)?,
            "alt": st(o, p::ImageAltText)?,
            "ap": align(o, p::LayoutAlignmentInParent)?, "as": align(o, p::LayoutAlignmentSelf)?,
            "filename": st(o, p::ImageFilename)?, "page_no": io(u32o(o, p::DisplayedPageNumber)?),
            "text": st(o, p::RichEditTextUnicode)?, "lang": io(u16o(o, p::RichEditTextLangId)?),
            "pic_w": flo(o, p::PictureWidth)?, "pic_h": flo(o, p::PictureHeight)?,
            "url": st(o, p::WzHyperlinkUrl)?,
            "x": flo(o, p::OffsetFromParentHoriz)?, "y": flo(o, p::OffsetFromParentVert)?,
            "background": T::B(boo(o, p::IsBackground, false)?),
            "tags": self.tags(o)?, "embeds": T::L(em)))
    }
    fn file(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::EmbeddedFileNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        oid(o, p::PictureContainer)?;
        boo(o, p::IsLayoutSizeSetByUser, false)?;
        sto(o, p::RichEditTextUnicode)?;
        u16o(o, p::RichEditTextLangId)?;
        align(o, p::LayoutAlignmentInParent)?;
        align(o, p::LayoutAlignmentSelf)?;
        sto(o, p::SourceFilepath)?;
        flo(o, p::PictureWidth)?;
        flo(o, p::PictureHeight)?;
        let c = req(oid(o, p::EmbeddedFileContainer)?)?;
        let name = req(sto(o, p::EmbeddedFileName)?)?;
        let ty = match u32o(o, p::IRecordMedia)? {
            None => "Unknown",
            Some(1) => "Audio",
            Some(2) => "Video",
            _ => return Err(X::Err),
        };
        self.get(c, jc::EmbeddedFileContainer)?;
        let data = req(self.blob(c))?;
        Ok(node!("file", "name": T::S(name), "type": T::s(ty), "data": T::Y(data.to_vec()),
            "max_w": flo(o, p::LayoutMaxWidth)?, "max_h": flo(o, p::LayoutMaxHeight)?,
            "x": flo(o, p::OffsetFromParentHoriz)?, "y": flo(o, p::OffsetFromParentVert)?,
            "tags": self.tags(o)?))
    }
    fn ink(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::InkContainer)?;
        u32o(o, p::LastModifiedTime)?;
        let sx = u32o(o, p::InkScalingX)?.map(f32::from_bits);
        let sy = u32o(o, p::InkScalingY)?.map(f32::from_bits);
        let (x, y) = (flo(o, p::OffsetFromParentHoriz)?, flo(o, p::OffsetFromParentVert)?);
        let (strokes, bb) = match oid(o, p::InkData)? {
            None => (T::L(vec![]), T::Null),
            Some(d) => self.ink_data(d, sx.unwrap_or(1.0), sy.unwrap_or(1.0))?,
        };
        Ok(node!("ink", "strokes": strokes, "bb": bb, "x": x, "y": y))
    }
    fn ink_data(&self, id: Ex, sx: f32, sy: f32) -> XR<(T, T)> {
        let o = self.get(id, jc::InkDataNode)?;
        let bb = match veo(o, p::InkBoundingBox)? {
            Some(b) if b.len() / 4 == 4 => {
                let v: Vec<f32> =
                    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as f32).collect();
                node!("box", "x": T::f(v[0] * sx), "y": T::f(v[1] * sy), "h": T::f((v[3] - v[1]) * sy),
                    "w": T::f((v[2] - v[0]) * sx))
            }
            _ => T::Null,
        };
        let mut strokes = vec![];
        for s in &req(oids(o, p::InkStrokes)?)? {
            let o = self.get(*s, jc::InkStrokeNode)?;
            let vals = isf_signed(req(veo(o, p::InkPath)?)?)?;
            if req(u8o(o, p::InkBias)?)? > 2 {
                return Err(X::Err);
            }
            u32o(o, p::LanguageId)?;
            let pr = self.get(req(oid(o, p::InkStrokeProperties)?)?, jc::StrokePropertiesNode)?;
            for b in [p::InkAntialised, p::InkFitToCurve, p::InkIgnorePressure] {
                boo(pr, b, false)?;
            }
            u8o(pr, p::InkRasterOperation)?;
            let w = req(u32o(pr, p::InkHeight)?)?;
            let h = req(u32o(pr, p::InkWidth)?)?;
            let dims: Vec<&[u8]> = veo(pr, p::InkDimensions)?.unwrap_or(&[]).chunks_exact(32).map(|c| &c[..16]).collect();
            let px = dims.iter().position(|d| *d == DIM_X()).ok_or(X::Err)?;
            let py = dims.iter().position(|d| *d == DIM_Y()).ok_or(X::Err)?;
            if vals.len() % dims.len() != 0 {
                return Err(X::Any);
            }
            let n = vals.len() / dims.len();
            let path = (0..n)
                .map(|i| T::L(vec![T::f(sx * vals[px * n + i] as f32), T::f(sy * vals[py * n + i] as f32)]))
                .collect();
            strokes.push(node!("stroke", "path": T::L(path), "tip": io(u8o(pr, p::InkPenTip)?),
                "transparency": io(u8o(pr, p::InkTransparency)?), "h": T::F(h), "w": T::F(w),
                "color": io(u32o(pr, p::InkColor)?)));
        }
        Ok((T::L(strokes), bb))
    }
    fn style(&self, id: Ex) -> XR<(T, &'a [Prop])> {
        let o = self.get(id, jc::ParagraphStyleObject)?;
        for b in [p::HyperlinkProtected, p::Hidden, p::TextRunIsEmbeddedObject] {
            boo(o, b, false)?;
        }
        u32o(o, p::EmbeddedObjectType)?;
        let b = |id| -> XR<T> { Ok(T::B(boo(o, id, false)?)) };
        let t = node!("style",
            "charset": u8o(o, p::Charset)?.map(charset).transpose()?.map(T::s).unwrap_or(T::Null),
            "bold": b(p::Bold)?, "italic": b(p::Italic)?, "underline": b(p::Underline)?,
            "strike": b(p::Strikethrough)?, "super": b(p::Superscript)?, "sub": b(p::Subscript)?,
            "font": st(o, p::Font)?, "size": io(u16o(o, p::FontSize)?),
            "color": colref(o, p::FontColor)?, "highlight": colref(o, p::Highlight)?,
            "next": st(o, p::NextStyle)?, "id": st(o, p::ParagraphStyleId)?,
            "align": par_align(o)?.map(T::s).unwrap_or(T::Null),
            "before": flo(o, p::ParagraphSpaceBefore)?, "after": flo(o, p::ParagraphSpaceAfter)?,
            "exact": flo(o, p::ParagraphLineSpacingExact)?,
            "lang": io(u32o(o, p::LanguageId)?),
            "math": b(p::MathFormatting)?, "link": b(p::Hyperlink)?);
        Ok((t, o))
    }
    fn text(&self, id: Ex) -> XR<T> {
        let o = self.get(id, jc::RichTextNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        for b in [
            p::LayoutTightLayout, p::IsTitleTime, p::IsBoilerText, p::IsTitleDate, p::IsTitleText, p::ReadingOrderRtl,
        ] {
            boo(o, b, false)?;
        }
        u16o(o, p::RichEditTextLangId)?;
        let style = self.style(req(oid(o, p::ParagraphStyle)?)?)?.0;
        let mut styles = vec![];
        let mut raw = vec![];
        for s in &oids(o, p::TextRunFormatting)?.unwrap_or_default() {
            let (t, r) = self.style(*s)?;
            styles.push(t);
            raw.push(r);
        }
        let runs: &[Vec<Prop>] = match pv(o, p::TextRunData) {
            None => &[],
            Some(PV::Vals(_, s)) => s,
            Some(_) => return Err(X::Err),
        };
        let refs = &oids(o, p::TextRunDataObject)?.unwrap_or_default();
        let mut math = vec![];
        let mut objs = vec![];
        let mut next = 0;
        for (d, s) in runs.iter().zip(&raw) {
            if boo(s, p::MathFormatting, false)? {
                let ch = |id| -> XR<T> {
                    Ok(match u16o(d, id)? {
                        None => T::Null,
                        Some(v) if (0xd800..0xe000).contains(&v) => return Err(X::Err),
                        Some(v) => T::I(v as i64),
                    })
                };
                math.push(node!("math",
                    "type": T::s(math_type(u32o(d, p::MathInlineObjectType)?.unwrap_or(0))?),
                    "args": T::I(u32o(d, p::MathInlineObjectCount)?.unwrap_or(0) as i64),
                    "col": io(u8o(d, p::MathInlineObjectCol)?), "align": io(u8o(d, p::MathInlineObjectAlign)?),
                    "char": ch(p::MathInlineObjectChar)?, "char1": ch(p::MathInlineObjectChar1)?,
                    "char2": ch(p::MathInlineObjectChar2)?));
            }
            if boo(s, p::TextRunIsEmbeddedObject, false)? {
                let f = |id| u32o(d, id);
                let (w, h) = (f(p::EmbeddedInkSpaceWidth)?, f(p::EmbeddedInkSpaceHeight)?);
                let (bx, by) = (f(p::EmbeddedInkStartX)?, f(p::EmbeddedInkStartY)?);
                let (bw, bh) = (f(p::EmbeddedInkWidth)?, f(p::EmbeddedInkHeight)?);
                let (ox, oy) = (flo(d, p::EmbeddedInkOffsetHoriz)?, flo(d, p::EmbeddedInkOffsetVert)?);
                match u32o(s, p::EmbeddedObjectType)? {
                    Some(0x20027) => objs.push(T::s("break")),
                    Some(0x20026) => {
                        objs.push(node!("espace", "h": T::F(req(h)?), "w": T::F(req(w)?)))
                    }
                    Some(_) => return Err(X::Err),
                    None => {
                        if refs.is_empty() {
                            continue;
                        }
                        let r = *refs.get(next).ok_or(X::Err)?;
                        next += 1;
                        let (strokes, bb) = self.ink_data(r, 1.0, 1.0)?;
                        let dbb = match (bx, by, bw, bh) {
                            (Some(x), Some(y), Some(w), Some(h)) => {
                                node!("box", "x": T::F(x), "y": T::F(y), "h": T::F(h), "w": T::F(w))
                            }
                            _ => T::Null,
                        };
                        objs.push(node!("eink", "ink": node!("ink", "strokes": strokes, "bb": bb, "x": ox, "y": oy),
                            "bb": dbb));
                    }
                }
            }
        }
        let text = match sto(o, p::RichEditTextUnicode)? {
            Some(s) => Some(s),
            None => veo(o, p::TextExtendedAscii)?.map(|b| b.iter().map(|c| *c as char).collect()),
        };
        let text = if objs.is_empty() { text.unwrap_or_default() } else { String::new() };
        let idx = veo(o, p::TextRunIndex)?.unwrap_or(&[]);
        Ok(node!("text", "text": T::S(text), "styles": T::L(styles),
            "indices": T::L(idx.chunks_exact(4).map(|c| T::I(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)).collect()),
            "style": style,
            "before": fld(o, p::ParagraphSpaceBefore)?, "after": fld(o, p::ParagraphSpaceAfter)?,
            "exact": flo(o, p::ParagraphLineSpacingExact)?,
            "align": T::s(par_align(o)?.unwrap_or("Left")),
            "ap": align(o, p::LayoutAlignmentInParent)?, "as": align(o, p::LayoutAlignmentSelf)?,
            "tags": self.tags(o)?, "objects": T::L(objs), "math": T::L(math)))
    }
    fn table(&self, id: Ex, d: usize) -> XR<T> {
        let o = self.get(id, jc::TableNode)?;
        req(u32o(o, p::LastModifiedTime)?)?;
        let rc = req(u32o(o, p::RowCount)?)?;
        let cc = req(u32o(o, p::ColumnCount)?)?;
        let mut rows = vec![];
        for r in &req(oids(o, p::ElementChildNodes)?)? {
            let ro = self.get(*r, jc::TableRowNode)?;
            u32o(ro, p::LastModifiedTime)?;
            let mut cells = vec![];
            for c in &req(oids(ro, p::ElementChildNodes)?)? {
                let co = self.get(*c, jc::TableCellNode)?;
                u32o(co, p::LastModifiedTime)?;
                let ind = indents(co)?;
                let mut els = vec![];
                for e in &req(oids(co, p::ElementChildNodes)?)? {
                    els.push(self.element(*e, d + 1)?);
                }
                cells.push(node!("cell", "contents": T::L(els), "color": color(co, p::CellBackgroundColor)?,
                    "max_w": flo(co, p::LayoutMaxWidth)?, "indents": ind));
            }
            rows.push(T::L(cells));
        }
        let skip1 = |v: Option<&'a [u8]>| v.map(|b| if b.is_empty() { b } else { &b[1..] }).unwrap_or(&[]);
        Ok(node!("table", "rows": T::I(rc as i64), "cols": T::I(cc as i64), "contents": T::L(rows),
            "locked": T::Y(skip1(veo(o, p::TableColumnsLocked)?).to_vec()),
            "widths": floats(skip1(veo(o, p::TableColumnWidths)?)),
            "borders": T::B(boo(o, p::TableBordersVisible, true)?),
            "ap": align(o, p::LayoutAlignmentInParent)?, "as": align(o, p::LayoutAlignmentSelf)?,
            "tags": self.tags(o)?))
    }
}

fn title_text(title: &T, contents: &[T]) -> T {
    // first run of text: the first outline item's first content, when it is non-empty text
    fn of(outline: &T) -> Option<T> {
        let T::N("outline", _) = outline else { return None };
        let T::N("element", _) = outline.get("items").at(0) else { return None };
        let c = outline.get("items").at(0).get("contents").at(0);
        let T::N("text", _) = c else { return None };
        match c.get("text") {
            T::S(s) if !s.is_empty() => Some(T::S(s.clone())),
            _ => None,
        }
    }
    of(title.get("contents").at(0)).or_else(|| contents.iter().find_map(of)).unwrap_or(T::Null)
}

#[allow(non_snake_case)]
pub fn DIM_X() -> G {
    g("598a6a8f-52c0-4ba0-93af-af357411a561")
}
#[allow(non_snake_case)]
pub fn DIM_Y() -> G {
    g("b53f9f75-04e0-4498-a7ee-c30dbb5a9011")
}

// ------------------------------------------------------------- entry points

pub fn blob_map(ir: &StoreIR) -> HashMap<Ex, &[u8]> {
    ir.blobs.iter().map(|(k, v)| (*k, &v[..])).collect()
}
pub fn expect_section(ir: &StoreIR, filename: &str) -> XR<T> {
    let b = blob_map(ir);
    St::new(ir, &b)?.section(filename)
}
pub fn expect_toc(ir: &StoreIR) -> XR<(Vec<String>, T)> {
    let b = blob_map(ir);
    St::new(ir, &b)?.toc()
}

// ------------------------------------------------------------- builder

pub const GOBJ: G = [0x0B; 16];
pub const GSP: G = [0xC5; 16];
pub const GREV: G = [0xDD; 16];
pub const GBLOB: G = [0xBB; 16];
pub fn xo(n: u32) -> Ex {
    Ex::new(GOBJ, n)
}
/// context of every cell
pub fn ctx0() -> Ex {
    Ex::new([0xC7; 16], 1)
}
pub fn cell(n: u32) -> Cell {
    Cell(ctx0(), Ex::new(GSP, n))
}

/// Objects of one object space under construction
#[derive(Clone, Debug, Default)]
pub struct B {
    pub objs: Vec<Obj>,
    pub blobs: Vec<(Ex, Vec<u8>)>,
    pub next: u32,
}
pub fn pr(id: u32, v: PV) -> Prop {
    Prop::new(id, v)
}
pub fn prs(id: u32, v: &str) -> Prop {
    Prop::new(id, PV::s(v))
}
pub fn gv() -> PV {
    PV::Vec(vec![0x42; 16])
}
pub fn indent_bytes(v: &[f32]) -> Vec<u8> {
    let mut b = vec![v.len() as u8, 0, 0, 0];
    for f in v {
        b.extend_from_slice(&f.to_le_bytes());
    }
    b
}

impl Obj {
    pub fn set(&mut self, id: u32, v: PV) -> &mut Self {
        let k = id & 0x3ffffff;
        if let Some(p) = self.props.iter_mut().find(|p| p.id == k) {
            p.v = v;
        } else {
            self.props.push(Prop::new(id, v));
        }
        self
    }
    pub fn unset(&mut self, id: u32) -> &mut Self {
        let k = id & 0x3ffffff;
        self.props.retain(|p| p.id != k);
        self
    }
}

impl B {
    pub fn new() -> B {
        B { objs: vec![], blobs: vec![], next: 1 }
    }
    pub fn at(base: u32) -> B {
        B { objs: vec![], blobs: vec![], next: base }
    }
    pub fn add(&mut self, jcid: u32, props: Vec<Prop>) -> Ex {
        let id = xo(self.next);
        self.next += 1;
        self.objs.push(Obj { id, jcid, props, blob: None });
        id
    }
    pub fn o(&mut self, id: Ex) -> &mut Obj {
        self.objs.iter_mut().find(|o| o.id == id).expect("object")
    }
    pub fn set(&mut self, id: Ex, prop: u32, v: PV) {
        self.o(id).set(prop, v);
    }
    pub fn blob(&mut self, data: Vec<u8>) -> Ex {
        let id = Ex::new(GBLOB, self.next);
        self.next += 1;
        self.blobs.push((id, data));
        id
    }
    pub fn style(&mut self) -> Ex {
        self.add(jc::ParagraphStyleObject, vec![])
    }
    pub fn text(&mut self, s: &str, style: Ex) -> Ex {
        self.add(
            jc::RichTextNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(7)),
                pr(p::ParagraphStyle, PV::Oid(style)),
                prs(p::RichEditTextUnicode, s),
            ],
        )
    }
    pub fn para(&mut self, s: &str) -> Ex {
        let st = self.style();
        self.text(s, st)
    }
    pub fn element(&mut self, level: u8, contents: &[Ex], children: &[Ex]) -> Ex {
        let author = xo(900_000);
        let mut v = vec![
            pr(p::CreationTimeStamp, PV::U32(1)),
            pr(p::LastModifiedTime, PV::U32(2)),
            pr(p::OutlineElementChildLevel, PV::U8(level)),
            pr(p::AuthorOriginal, PV::Oid(author)),
            pr(p::AuthorMostRecent, PV::Oid(author)),
        ];
        if !contents.is_empty() {
            v.push(pr(p::ContentChildNodes, PV::Oids(contents.to_vec())));
        }
        if !children.is_empty() {
            v.push(pr(p::ElementChildNodes, PV::Oids(children.to_vec())));
        }
        self.add(jc::OutlineElementNode, v)
    }
    pub fn group(&mut self, level: u8, children: &[Ex]) -> Ex {
        let mut v = vec![pr(p::LastModifiedTime, PV::U32(2)), pr(p::OutlineElementChildLevel, PV::U8(level))];
        if !children.is_empty() {
            v.push(pr(p::ElementChildNodes, PV::Oids(children.to_vec())));
        }
        self.add(jc::OutlineGroup, v)
    }
    pub fn outline(&mut self, items: &[Ex]) -> Ex {
        let mut v = vec![
            pr(p::LastModifiedTime, PV::U32(2)),
            pr(p::OutlineElementChildLevel, PV::U8(1)),
            pr(p::RgOutlineIndentDistance, PV::Vec(indent_bytes(&[0.5, 1.25]))),
        ];
        if !items.is_empty() {
            v.push(pr(p::ElementChildNodes, PV::Oids(items.to_vec())));
        }
        self.add(jc::OutlineNode, v)
    }
    /// outline with one element holding `contents`
    pub fn wrap(&mut self, contents: &[Ex]) -> Ex {
        let e = self.element(1, contents, &[]);
        self.outline(&[e])
    }
    pub fn title(&mut self, outlines: &[Ex]) -> Ex {
        self.add(
            jc::TitleNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(2)),
                pr(p::ElementChildNodes, PV::Oids(outlines.to_vec())),
                pr(p::OffsetFromParentHoriz, PV::f(1.0)),
                pr(p::OffsetFromParentVert, PV::f(2.0)),
            ],
        )
    }
    pub fn cell(&mut self, els: &[Ex]) -> Ex {
        self.add(
            jc::TableCellNode,
            vec![
                pr(p::ElementChildNodes, PV::Oids(els.to_vec())),
                pr(p::RgOutlineIndentDistance, PV::Vec(indent_bytes(&[2.0]))),
            ],
        )
    }
    pub fn row(&mut self, cells: &[Ex]) -> Ex {
        self.add(jc::TableRowNode, vec![pr(p::ElementChildNodes, PV::Oids(cells.to_vec()))])
    }
    pub fn table(&mut self, rows: &[Ex], rc: u32, cc: u32) -> Ex {
        self.add(
            jc::TableNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(2)),
                pr(p::ElementChildNodes, PV::Oids(rows.to_vec())),
                pr(p::RowCount, PV::U32(rc)),
                pr(p::ColumnCount, PV::U32(cc)),
            ],
        )
    }
    pub fn image(&mut self, data: Option<Vec<u8>>) -> Ex {
        let mut v = vec![];
        if let Some(d) = data {
            let b = self.blob(d);
            let c = self.add(jc::PictureContainer, vec![]);
            self.o(c).blob = Some(b);
            v.push(pr(p::PictureContainer, PV::Oid(c)));
        }
        self.add(jc::ImageNode, v)
    }
    pub fn file(&mut self, name: &str, data: Vec<u8>) -> Ex {
        let b = self.blob(data);
        let c = self.add(jc::EmbeddedFileContainer, vec![]);
        self.o(c).blob = Some(b);
        self.add(
            jc::EmbeddedFileNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(3)),
                pr(p::EmbeddedFileContainer, PV::Oid(c)),
                prs(p::EmbeddedFileName, name),
            ],
        )
    }
    pub fn list(&mut self) -> Ex {
        self.add(
            jc::NumberListNode,
            vec![
                pr(p::LastModifiedTime, PV::U32(3)),
                pr(p::NumberListFormat, PV::Vec(utf16(&[3, 0xfffd, 0, 0x2e]))),
            ],
        )
    }
    pub fn tag_def(&mut self, label: &str, shape: u16) -> Ex {
        self.add(
            jc::NoteTagSharedDefinitionContainer,
            vec![
                prs(p::NoteTagLabel, label),
                pr(p::NoteTagPropertyStatus, PV::U32(0)),
                pr(p::NoteTagShape, PV::U16(shape)),
                pr(p::ActionItemType, PV::U16(0)),
            ],
        )
    }
    pub fn stroke(&mut self, xs: &[i64], ys: &[i64]) -> Ex {
        let mut vals = xs.to_vec();
        vals.extend(ys);
        let props = self.add(
            jc::StrokePropertiesNode,
            vec![
                pr(p::InkHeight, PV::f(3.0)),
                pr(p::InkWidth, PV::f(4.0)),
                pr(p::InkDimensions, PV::Vec(dims(&[DIM_X(), DIM_Y()]))),
            ],
        );
        self.add(
            jc::InkStrokeNode,
            vec![
                pr(p::InkPath, PV::Vec(isf_enc(&vals))),
                pr(p::InkBias, PV::U8(0)),
                pr(p::InkStrokeProperties, PV::Oid(props)),
            ],
        )
    }
    pub fn ink_data(&mut self, strokes: &[Ex]) -> Ex {
        self.add(jc::InkDataNode, vec![pr(p::InkStrokes, PV::Oids(strokes.to_vec()))])
    }
    pub fn ink(&mut self, strokes: &[Ex]) -> Ex {
        let d = self.ink_data(strokes);
        self.add(jc::InkContainer, vec![pr(p::InkData, PV::Oid(d))])
    }
}
pub fn dims(v: &[G]) -> Vec<u8> {
    let mut b = vec![];
    for g in v {
        b.extend_from_slice(g);
        b.extend_from_slice(&[0; 16]);
    }
    b
}
pub fn isf_uint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            break;
        }
        out.push(b | 0x80);
    }
}
/// sign-magnitude packed values preceded by their count
pub fn isf_enc(v: &[i64]) -> Vec<u8> {
    let mut b = vec![];
    isf_uint((v.len() as u64) << 1, &mut b);
    for x in v {
        isf_uint(x.unsigned_abs() << 1 | (*x < 0) as u64, &mut b);
    }
    b
}

/// a cell whose history is the single revision holding `objs`
pub fn one_rev(c: Cell, n: u32, objs: Vec<Obj>, roots: Vec<(u32, Ex)>) -> SpaceIR {
    SpaceIR {
        cell: c,
        manifest: eid(1000 * n),
        revs: vec![RevIR {
            rev: Ex::new(GREV, 1000 * n),
            manifest: eid(1000 * n + 1),
            base: Ex::NIL,
            groups: vec![GroupIR { id: eid(1000 * n + 2), objs }],
            roots,
        }],
    }
}

/// A page object space over the objects in `b`
pub fn page_space(n: u32, mut b: B, contents: &[Ex], title: Option<Ex>) -> (SpaceIR, Vec<(Ex, Vec<u8>)>) {
    let mut v = vec![pr(p::LastModifiedTime, PV::U32(1))];
    if !contents.is_empty() {
        v.push(pr(p::ElementChildNodes, PV::Oids(contents.to_vec())));
    }
    if let Some(t) = title {
        v.push(pr(p::StructureElementChildNodes, PV::Oids(vec![t])));
    }
    let page = Obj { id: xo(990_001), jcid: jc::PageNode, props: v, blob: None };
    let man = Obj {
        id: xo(990_002),
        jcid: jc::PageManifestNode,
        props: vec![pr(p::ContentChildNodes, PV::Oids(vec![page.id]))],
        blob: None,
    };
    let meta = Obj {
        id: xo(990_003),
        jcid: jc::PageMetadata,
        props: vec![
            pr(p::NotebookManagementEntityGuid, gv()),
            prs(p::CachedTitleString, "t"),
            pr(p::TopologyCreationTimeStamp, PV::U64(1)),
        ],
        blob: None,
    };
    b.objs.push(page);
    b.objs.push(man);
    b.objs.push(meta);
    let sp = one_rev(cell(n), n, b.objs, vec![(1, xo(990_002)), (2, xo(990_003))]);
    (sp, b.blobs)
}
pub const PAGE: u32 = 990_001;
pub const PMAN: u32 = 990_002;
pub const PMETA: u32 = 990_003;
pub const SEC: u32 = 980_001;
pub const SMETA: u32 = 980_002;

/// The data root of a section whose series hold the given page cells
pub fn section_root(series: &[Vec<Cell>]) -> SpaceIR {
    let mut objs = vec![];
    let mut ids = vec![];
    for (i, s) in series.iter().enumerate() {
        let id = xo(980_010 + i as u32);
        ids.push(id);
        objs.push(Obj {
            id,
            jcid: jc::PageSeriesNode,
            props: vec![
                pr(p::NotebookManagementEntityGuid, gv()),
                pr(p::ChildGraphSpaceElementNodes, PV::Osids(s.clone())),
            ],
            blob: None,
        });
    }
    objs.push(Obj {
        id: xo(SEC),
        jcid: jc::SectionNode,
        props: vec![
            pr(p::NotebookManagementEntityGuid, gv()),
            pr(p::TopologyCreationTimeStamp, PV::U64(1)),
            pr(p::ElementChildNodes, PV::Oids(ids)),
        ],
        blob: None,
    });
    objs.push(Obj {
        id: xo(SMETA),
        jcid: jc::SectionMetadata,
        props: vec![
            pr(p::SchemaRevisionInOrderToRead, PV::U32(1)),
            pr(p::SchemaRevisionInOrderToWrite, PV::U32(1)),
        ],
        blob: None,
    });
    one_rev(cell(1), 1, objs, vec![(1, xo(SEC)), (2, xo(SMETA))])
}

/// A section with one page holding `contents`
pub fn section1(b: B, contents: &[Ex], title: Option<Ex>) -> StoreIR {
    let (sp, blobs) = page_space(2, b, contents, title);
    StoreIR { schema: C.section, spaces: vec![section_root(&[vec![cell(2)]]), sp], blobs }
}

impl StoreIR {
    /// object `id` in the newest revision of space `i` that holds it
    pub fn obj(&mut self, i: usize, id: Ex) -> &mut Obj {
        self.spaces[i]
            .revs
            .iter_mut()
            .flat_map(|r| r.groups.iter_mut())
            .flat_map(|g| g.objs.iter_mut())
            .find(|o| o.id == id)
            .expect("object")
    }
}

/// A table of contents with the given containers under one root
pub fn toc_store(objs: Vec<Obj>, root: Ex) -> StoreIR {
    StoreIR { schema: C.notebook, spaces: vec![one_rev(cell(1), 1, objs, vec![(1, root)])], blobs: vec![] }
}
pub fn toc_leaf(id: Ex, name: &str, ord: u32) -> Obj {
    Obj {
        id,
        jcid: jc::TocContainer,
        props: vec![prs(p::FolderChildFilename, name), pr(p::NotebookElementOrderingId, PV::U32(ord))],
        blob: None,
    }
}
pub fn toc_node(id: Ex, kids: &[Ex]) -> Obj {
    Obj { id, jcid: jc::TocContainer, props: vec![pr(p::TocChildren, PV::Oids(kids.to_vec()))], blob: None }
}
/// flat table of contents
pub fn toc_flat(names: &[(&str, u32)]) -> StoreIR {
    let mut objs = vec![];
    let mut ids = vec![];
    for (i, (n, o)) in names.iter().enumerate() {
        let id = xo(10 + i as u32);
        ids.push(id);
        objs.push(toc_leaf(id, n, *o));
    }
    objs.push(toc_node(xo(1), &ids));
    toc_store(objs, xo(1))
}
