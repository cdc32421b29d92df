//! Package level model (data elements) and its encoding, plus the store level
//! model (cells, revisions, object groups, objects) and its lowering.
#![allow(dead_code)]
use crate::enc::*;
use std::collections::HashMap;
use std::sync::LazyLock;

pub struct Consts {
    pub hdr_root: G,
    pub data_root: G,
    pub role: G,
    pub section: G,
    pub notebook: G,
    pub fmt_rev: G,
    pub fmt_pkg: G,
    pub cell_schema: G,
    pub filetype_one: G,
}
pub static C: LazyLock<Consts> = LazyLock::new(|| Consts {
    hdr_root: g("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"),
    data_root: g("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"),
    role: g("4A3717F8-1C14-49E7-9526-81D942DE1741"),
    section: g("1F937CB4-B26F-445F-B9F8-17E20160E461"),
    notebook: g("E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F"),
    fmt_rev: g("109ADD3F-911B-49F5-A5D0-1791EDC8AED8"),
    fmt_pkg: g("638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7"),
    cell_schema: g("F8B8A1B6-2A5E-4C1B-8F5B-0F4B2B6F5A11"),
    filetype_one: g("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3"),
});

// ---------------------------------------------------------------- package

#[derive(Clone, Debug)]
pub enum SI {
    Manifest { id: Ex, serial: Serial },
    Cell { cell: Cell, id: Ex, serial: Serial },
    Rev { id: Ex, map: Ex, serial: Serial },
}
#[derive(Clone, Debug)]
pub enum RM {
    Root { role: Ex, obj: Ex },
    Group(Ex),
}
#[derive(Clone, Debug)]
pub enum Decl {
    Obj { id: Ex, part: u64, size: u64, refs: u64, cells: u64 },
    Blob { id: Ex, blob: Ex, part: u64, refs: u64, cells: u64 },
}
#[derive(Clone, Debug)]
pub enum Dat {
    Obj { refs: Vec<Ex>, cells: Vec<Cell>, data: Vec<u8>, marks: Vec<Mark> },
    Excluded { refs: Vec<Ex>, cells: Vec<Cell>, size: u64 },
    Blob { refs: Vec<Ex>, cells: Vec<Cell>, blob: Ex },
}
#[derive(Clone, Debug)]
pub enum Body {
    StorageIndex(Vec<SI>),
    StorageManifest { schema: G, roots: Vec<(Ex, Cell)> },
    CellManifest(Ex),
    RevManifest { rev: Ex, base: Ex, entries: Vec<RM> },
    Group { decls: Vec<Decl>, meta: Option<Vec<u64>>, data: Vec<Dat> },
    Fragment { id: Ex, size: u64, off: u64, len: u64, data: Vec<u8> },
    Blob(Vec<u8>),
}
impl Body {
    pub fn ty(&self) -> u64 {
        match self {
            Body::StorageIndex(_) => 1,
            Body::StorageManifest { .. } => 2,
            Body::CellManifest(_) => 3,
            Body::RevManifest { .. } => 4,
            Body::Group { .. } => 5,
            Body::Fragment { .. } => 6,
            Body::Blob(_) => 10,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Elem {
    pub id: Ex,
    pub serial: Serial,
    pub body: Body,
    /// Override the stored element type (width in bytes, value)
    pub ty: Option<(u64, u8)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Layout {
    /// package store format id
    Package,
    /// revision store format id with a legacy file version
    RevLegacy,
    /// revision store format id, nil legacy version: full header + transaction log
    RevFull { gap: u32 },
}
#[derive(Clone, Debug)]
pub struct Package {
    pub layout: Layout,
    pub storage_index: Ex,
    pub elems: Vec<Elem>,
    pub trailing: Vec<u8>,
}

impl Package {
    pub fn encode(&self, o: &Opts) -> (Vec<u8>, Vec<Mark>) {
        let mut w = W::new(o);
        let full = |w: &mut W, fmt: &G, leg: &G| {
            w.guid(&C.filetype_one, "file_type");
            w.guid(&[7; 16], "file");
            let s = w.b.len();
            w.raw(leg);
            w.mark(s, K::FileGuid, "legacy_version");
            let s = w.b.len();
            w.raw(fmt);
            w.mark(s, K::FileGuid, "file_format");
        };
        match self.layout {
            Layout::Package => full(&mut w, &C.fmt_pkg, &[0; 16]),
            Layout::RevLegacy => full(&mut w, &C.fmt_rev, &[9; 16]),
            Layout::RevFull { gap } => {
                full(&mut w, &C.fmt_rev, &[0; 16]);
                for v in [0x2Au32, 0x2A, 0x1B, 0x2A] {
                    let s = w.b.len();
                    w.u32(v);
                    w.mark(s, K::Version, "version");
                }
                w.u64(u64::MAX);
                w.u64(u64::MAX);
                w.u32(1);
                w.u32(0);
                w.u64(0);
                w.u64(u64::MAX);
                w.u32(0);
                w.raw(&[0, 0, 0, 1]);
                w.raw(&[5; 16]);
                w.u32(0x1234);
                w.u64(u64::MAX);
                w.u32(0);
                let s = w.b.len();
                let end = (s + 12) as u64 + gap as u64;
                // transaction log: stp + cb = end
                w.u64(end - (gap as u64) / 2);
                w.u32(gap / 2);
                w.mark(s, K::Raw, "transaction_log");
                for _ in 0..gap {
                    w.u8(0xEE);
                }
                full(&mut w, &C.fmt_pkg, &[0; 16]);
            }
        }
        let s = w.b.len();
        w.u32(0);
        w.mark(s, K::Pad, "pad32");
        w.obj(0x7a, true, 2, "packaging", |w| {
            w.ex(&self.storage_index, "storage_index");
            w.guid(&C.cell_schema, "cell_schema");
        });
        w.obj(0x15, true, 0, "package", |w| {
            let s = w.b.len();
            w.u8(0);
            w.mark(s, K::Pad, "pad8");
        });
        for e in &self.elems {
            e.encode(&mut w);
        }
        w.e8(0x15, "package_end");
        w.e16(0x7a, "packaging_end");
        let s = w.b.len();
        w.raw(&self.trailing);
        w.mark(s, K::Raw, "trailing");
        (w.b, w.m)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.encode(&Opts::default()).0
    }
    pub fn find_mut<F: Fn(&Elem) -> bool>(&mut self, f: F) -> Option<&mut Elem> {
        self.elems.iter_mut().find(|e| f(e))
    }
}

fn exs(w: &mut W, v: &[Ex], tag: &'static str) {
    w.cu(v.len() as u64, tag);
    for e in v {
        w.ex(e, tag);
    }
}
fn cells(w: &mut W, v: &[Cell], tag: &'static str) {
    w.cu(v.len() as u64, tag);
    for c in v {
        w.cell(c, tag);
    }
}

impl Elem {
    pub fn new(id: Ex, body: Body) -> Elem {
        Elem { id, serial: None, body, ty: None }
    }
    pub fn encode(&self, w: &mut W) {
        w.obj(1, true, 0, "element", |w| {
            w.ex(&self.id, "elem_id");
            w.serial(&self.serial, "elem_serial");
            match self.ty {
                None => w.cu(self.body.ty(), "elem_type"),
                Some((v, wd)) => w.cuw(v, wd),
            }
        });
        match &self.body {
            Body::StorageIndex(v) => {
                for e in v {
                    match e {
                        SI::Manifest { id, serial } => w.obj(0x11, false, 0, "si_manifest", |w| {
                            w.ex(id, "si_manifest");
                            w.serial(serial, "si_manifest");
                        }),
                        SI::Cell { cell, id, serial } => w.obj(0x0e, false, 0, "si_cell", |w| {
                            w.cell(cell, "si_cell.cell");
                            w.ex(id, "si_cell.id");
                            w.serial(serial, "si_cell");
                        }),
                        SI::Rev { id, map, serial } => w.obj(0x0d, false, 0, "si_rev", |w| {
                            w.ex(id, "si_rev.id");
                            w.ex(map, "si_rev.map");
                            w.serial(serial, "si_rev");
                        }),
                    }
                }
            }
            Body::StorageManifest { schema, roots } => {
                w.obj(0x0c, false, 0, "storage_manifest", |w| w.guid(schema, "schema"));
                for (id, cell) in roots {
                    w.obj(0x07, false, 0, "manifest_root", |w| {
                        w.ex(id, "root_id");
                        w.cell(cell, "root_cell");
                    });
                }
            }
            Body::CellManifest(id) => w.obj(0x0b, false, 0, "cell_manifest", |w| w.ex(id, "cell_manifest")),
            Body::RevManifest { rev, base, entries } => {
                w.obj(0x1a, false, 0, "rev_manifest", |w| {
                    w.ex(rev, "rev_id");
                    w.ex(base, "base_rev");
                });
                for e in entries {
                    match e {
                        RM::Root { role, obj } => w.obj(0x0a, false, 0, "rev_root", |w| {
                            w.ex(role, "rev_root.role");
                            w.ex(obj, "rev_root.obj");
                        }),
                        RM::Group(id) => w.obj(0x19, false, 0, "rev_group", |w| w.ex(id, "rev_group")),
                    }
                }
            }
            Body::Group { decls, meta, data } => {
                w.obj(0x1d, true, 1, "decls", |_| {});
                for d in decls {
                    match d {
                        Decl::Obj { id, part, size, refs, cells } => w.obj(0x18, false, 1, "decl", |w| {
                            w.ex(id, "decl.id");
                            w.cu(*part, "decl.part");
                            w.cu(*size, "decl.size");
                            w.cu(*refs, "decl.refs");
                            w.cu(*cells, "decl.cells");
                        }),
                        Decl::Blob { id, blob, part, refs, cells } => w.obj(0x05, false, 1, "decl_blob", |w| {
                            w.ex(id, "declb.id");
                            w.ex(blob, "declb.blob");
                            w.cu(*part, "declb.part");
                            w.cu(*refs, "declb.refs");
                            w.cu(*cells, "declb.cells");
                        }),
                    }
                }
                w.e8(0x1d, "decls_end");
                if let Some(m) = meta {
                    w.obj(0x79, true, 2, "meta", |_| {});
                    for f in m {
                        w.obj(0x78, false, 2, "meta_entry", |w| w.cu(*f, "freq"));
                    }
                    w.e16(0x79, "meta_end");
                }
                w.obj(0x1e, true, 1, "gdata", |_| {});
                for d in data {
                    match d {
                        Dat::Obj { refs, cells: cs, data, marks } => w.obj(0x16, false, 1, "gobj", |w| {
                            exs(w, refs, "gobj.refs");
                            cells(w, cs, "gobj.cells");
                            w.cu(data.len() as u64, "gobj.size");
                            let s = w.b.len();
                            w.raw(data);
                            w.mark(s, K::Data, "gobj.data");
                            if w.o.marks {
                                for m in marks {
                                    w.m.push(Mark { off: m.off + s, ..*m });
                                }
                            }
                        }),
                        Dat::Excluded { refs, cells: cs, size } => w.obj(0x03, false, 1, "gexcl", |w| {
                            exs(w, refs, "gexcl.refs");
                            cells(w, cs, "gexcl.cells");
                            w.cu(*size, "gexcl.size");
                        }),
                        Dat::Blob { refs, cells: cs, blob } => w.obj(0x1c, false, 1, "gblob", |w| {
                            exs(w, refs, "gblob.refs");
                            cells(w, cs, "gblob.cells");
                            w.ex(blob, "gblob.blob");
                        }),
                    }
                }
                w.e8(0x1e, "gdata_end");
            }
            Body::Fragment { id, size, off, len, data } => w.obj(0x6a, false, 2, "fragment", |w| {
                w.ex(id, "frag.id");
                w.cu(*size, "frag.size");
                w.cu(*off, "frag.off");
                w.cu(*len, "frag.len");
                let s = w.b.len();
                w.raw(data);
                w.mark(s, K::Data, "frag.data");
            }),
            Body::Blob(d) => w.obj(0x02, false, 1, "blob", |w| {
                w.cu(d.len() as u64, "blob.size");
                let s = w.b.len();
                w.raw(d);
                w.mark(s, K::Data, "blob.data");
            }),
        }
        w.e8(1, "element_end");
    }
}

// ---------------------------------------------------------------- objects

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    Empty,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Vec(Vec<u8>),
    Oid(Ex),
    Oids(Vec<Ex>),
    Osid(Cell),
    Osids(Vec<Cell>),
    Ctx(Ex),
    Ctxs(Vec<Ex>),
    Vals(u32, Vec<Vec<Prop>>),
    Set(Vec<Prop>),
    /// value of the given type stored as these very bytes
    Raw(u32, Vec<u8>),
}
impl PV {
    pub fn f(v: f32) -> PV {
        PV::U32(v.to_bits())
    }
    pub fn s(v: &str) -> PV {
        PV::Vec(utf16z(v))
    }
    pub fn ty(&self) -> u32 {
        match self {
            PV::Empty => 1,
            PV::Bool(_) => 2,
            PV::U8(_) => 3,
            PV::U16(_) => 4,
            PV::U32(_) => 5,
            PV::U64(_) => 6,
            PV::Vec(_) => 7,
            PV::Oid(_) => 8,
            PV::Oids(_) => 9,
            PV::Osid(_) => 10,
            PV::Osids(_) => 11,
            PV::Ctx(_) => 12,
            PV::Ctxs(_) => 13,
            PV::Vals(..) => 16,
            PV::Set(_) => 17,
            PV::Raw(t, _) => *t,
        }
    }
}
pub fn utf16z(s: &str) -> Vec<u8> {
    let mut v: Vec<u8> = s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
    v.extend_from_slice(&[0, 0]);
    v
}
pub fn utf16(s: &[u16]) -> Vec<u8> {
    s.iter().flat_map(|u| u.to_le_bytes()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    /// low 26 bits of the property id
    pub id: u32,
    pub v: PV,
}
impl Prop {
    pub fn new(id: u32, v: PV) -> Prop {
        Prop { id: id & 0x3ffffff, v }
    }
    fn stored_id(&self) -> u32 {
        self.id | self.v.ty() << 26 | if self.v == PV::Bool(true) { 1 << 31 } else { 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub id: Ex,
    pub jcid: u32,
    pub props: Vec<Prop>,
    pub blob: Option<Ex>,
}

/// How compact identifiers are assigned to reference stream entries
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cid {
    /// every entry its own compact id
    Unique,
    /// one compact id per distinct target
    Dedup,
    /// all entries share one compact id (position decides)
    Collide,
    /// guid index / n reversed, objects and spaces numbered alike
    Mirror,
    /// two bits per entry (objects, then spaces, then contexts) select one of four ids
    Pick(u64),
    /// one per target as with `Dedup`, numbered 1, 2, .. from the given bit on
    Rot(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct ObjOpts {
    pub cid: Cid,
    /// emit the object-space stream even if empty
    pub osid_stream: bool,
    /// emit the context stream even if empty
    pub ctx_stream: bool,
    /// nil references have the identifier zero and no entry in the table of
    /// references (0), such an entry (1), or one with an identifier of its own (2)
    pub nil: u8,
}
impl Default for ObjOpts {
    fn default() -> Self {
        ObjOpts { cid: Cid::Dedup, osid_stream: false, ctx_stream: false, nil: 0 }
    }
}

struct Refs {
    o: Vec<Ex>,
    s: Vec<Cell>,
    c: Vec<Ex>,
}
fn walk(ps: &[Prop], r: &mut Refs) {
    for p in ps {
        match &p.v {
            PV::Oid(e) => r.o.push(*e),
            PV::Oids(v) => r.o.extend(v),
            PV::Osid(c) => r.s.push(*c),
            PV::Osids(v) => r.s.extend(v),
            PV::Ctx(c) => r.c.push(*c),
            PV::Ctxs(v) => r.c.extend(v),
            PV::Vals(_, sets) => {
                for s in sets {
                    walk(s, r)
                }
            }
            PV::Set(s) => walk(s, r),
            _ => {}
        }
    }
}

fn wr_set(w: &mut W, ps: &[Prop]) {
    let s = w.b.len();
    w.u16(ps.len() as u16);
    w.mark(s, K::PropCnt, "prop_count");
    for p in ps {
        let s = w.b.len();
        w.u32(p.stored_id());
        w.mark(s, K::PropId, "prop_id");
    }
    for p in ps {
        let s = w.b.len();
        match &p.v {
            PV::Empty | PV::Bool(_) | PV::Oid(_) | PV::Osid(_) | PV::Ctx(_) => {}
            PV::U8(v) => w.u8(*v),
            PV::U16(v) => w.u16(*v),
            PV::U32(v) => w.u32(*v),
            PV::U64(v) => w.u64(*v),
            PV::Vec(v) => {
                w.u32(v.len() as u32);
                w.mark(s, K::PropCnt, "vec_len");
                let s2 = w.b.len();
                w.raw(v);
                w.mark(s2, K::PropVal, "vec");
                continue;
            }
            PV::Raw(_, v) => w.raw(v),
            PV::Oids(v) => w.u32(v.len() as u32),
            PV::Osids(v) => w.u32(v.len() as u32),
            PV::Ctxs(v) => w.u32(v.len() as u32),
            PV::Vals(id, sets) => {
                w.u32(sets.len() as u32);
                w.mark(s, K::PropCnt, "vals_len");
                let s2 = w.b.len();
                w.u32(*id);
                w.mark(s2, K::PropId, "vals_id");
                for x in sets {
                    wr_set(w, x)
                }
                continue;
            }
            PV::Set(x) => {
                wr_set(w, x);
                continue;
            }
        }
        if w.b.len() > s {
            let k = match p.v {
                PV::Oids(_) | PV::Osids(_) | PV::Ctxs(_) => K::PropCnt,
                _ => K::PropVal,
            };
            w.mark(s, k, "prop_val");
        }
    }
}

/// Compact identifiers of a stream; nil references have the identifier zero and
/// no entry in the table of references.
fn assign<T: Eq + std::hash::Hash + Copy>(v: &[T], cid: Cid, base: u32, nil: fn(&T) -> bool) -> Vec<u32> {
    let mut first: HashMap<T, usize> = HashMap::new();
    v.iter()
        .enumerate()
        .map(|(i, t)| match cid {
            _ if nil(t) => 0,
            Cid::Unique => (base + i as u32) << 8 | ((i as u32 * 37) & 0xff),
            Cid::Dedup => {
                let k = *first.entry(*t).or_insert(i) as u32;
                (base + k) << 8 | 1
            }
            Cid::Rot(r) => (*first.entry(*t).or_insert(i) as u32 + 1).rotate_left(r),
            Cid::Collide => 0x0000_0501,
            Cid::Mirror => ((v.len() - i) as u32) << 8 | 3,
            Cid::Pick(m) => [0x0000_0501, 0x0000_0502, 0x0000_0601, 0x00ff_ffff][(m >> (2 * i).min(62) & 3) as usize],
        })
        .collect()
}

pub struct EncObj {
    pub data: Vec<u8>,
    pub refs: Vec<Ex>,
    pub cells: Vec<Cell>,
    pub marks: Vec<Mark>,
}

/// Encode the property stream of an object living in object space `space`.
pub fn enc_obj(props: &[Prop], space: &Ex, oo: &ObjOpts, marks: bool) -> EncObj {
    let mut r = Refs { o: vec![], s: vec![], c: vec![] };
    walk(props, &mut r);
    let mut w = W::new(&Opts { marks, ..Opts::default() });
    let has_c = !r.c.is_empty() || oo.ctx_stream;
    let has_s = !r.s.is_empty() || oo.osid_stream || has_c;
    let base = 16;
    let s = w.b.len();
    w.u32(r.o.len() as u32 | if has_s { 0 } else { 1 << 31 });
    w.mark(s, K::PropHdr, "oid_header");
    let later = |n: usize| match oo.cid {
        Cid::Pick(m) => Cid::Pick(m.checked_shr(2 * n as u32).unwrap_or(0)),
        c => c,
    };
    for c in assign(&r.o, oo.cid, base, if oo.nil == 2 { |_| false } else { Ex::is_nil }) {
        let s = w.b.len();
        w.u32(c);
        w.mark(s, K::CompactId, "oid");
    }
    if has_s {
        let s = w.b.len();
        w.u32(r.s.len() as u32 | if has_c { 1 << 30 } else { 0 });
        w.mark(s, K::PropHdr, "osid_header");
        let b2 = if oo.cid == Cid::Mirror { base } else { base + 100 };
        for c in assign(&r.s, later(r.o.len()), b2, |_| false) {
            let s = w.b.len();
            w.u32(c);
            w.mark(s, K::CompactId, "osid");
        }
        if has_c {
            let s = w.b.len();
            w.u32(r.c.len() as u32);
            w.mark(s, K::PropHdr, "ctx_header");
            for c in assign(&r.c, later(r.o.len() + r.s.len()), base + 200, |_| false) {
                let s = w.b.len();
                w.u32(c);
                w.mark(s, K::CompactId, "ctx");
            }
        }
    }
    wr_set(&mut w, props);
    // the data is padded to a multiple of 8 bytes in the format
    while w.b.len() % 8 != 0 {
        w.b.push(0);
    }
    let mut cells: Vec<Cell> = r.s.clone();
    cells.extend(r.c.iter().map(|c| Cell(*c, *space)));
    if oo.nil == 0 {
        r.o.retain(|x| !x.is_nil());
    }
    EncObj { data: w.b, refs: r.o, cells, marks: w.m }
}

// ---------------------------------------------------------------- store

#[derive(Clone, Debug)]
pub struct GroupIR {
    pub id: Ex,
    pub objs: Vec<Obj>,
}
#[derive(Clone, Debug)]
pub struct RevIR {
    /// identifier of the revision itself
    pub rev: Ex,
    /// data element id of its manifest
    pub manifest: Ex,
    /// revision id of the base revision (nil = none)
    pub base: Ex,
    pub groups: Vec<GroupIR>,
    pub roots: Vec<(u32, Ex)>,
}
#[derive(Clone, Debug)]
pub struct SpaceIR {
    pub cell: Cell,
    /// data element id of the cell manifest
    pub manifest: Ex,
    /// newest first
    pub revs: Vec<RevIR>,
}
#[derive(Clone, Debug)]
pub struct StoreIR {
    pub schema: G,
    pub spaces: Vec<SpaceIR>, // first one is the data root
    pub blobs: Vec<(Ex, Vec<u8>)>,
}

#[derive(Clone, Debug)]
pub struct BuildOpts {
    pub layout: Layout,
    pub oo: ObjOpts,
    pub meta: bool,
    pub marks: bool,
}
impl Default for BuildOpts {
    fn default() -> Self {
        BuildOpts { layout: Layout::Package, oo: ObjOpts::default(), meta: false, marks: false }
    }
}

pub const GEN: G = [0xA1; 16]; // element ids
pub fn eid(n: u32) -> Ex {
    Ex::new(GEN, n)
}

pub const GSER: G = [0x5E; 16];

pub fn group_body(objs: &[Obj], space: &Ex, bo: &BuildOpts) -> Body {
    let mut decls = vec![];
    let mut data = vec![];
    for o in objs {
        let e = enc_obj(&o.props, space, &bo.oo, bo.marks);
        decls.push(Decl::Obj { id: o.id, part: 4, size: 4, refs: 0, cells: 0 });
        data.push(Dat::Obj { refs: vec![], cells: vec![], data: o.jcid.to_le_bytes().to_vec(), marks: vec![Mark { off: 0, len: 4, k: K::PropVal, tag: "jcid" }] });
        decls.push(Decl::Obj {
            id: o.id,
            part: 1,
            size: e.data.len() as u64,
            refs: e.refs.len() as u64,
            cells: e.cells.len() as u64,
        });
        data.push(Dat::Obj { refs: e.refs, cells: e.cells, data: e.data, marks: e.marks });
        if let Some(b) = o.blob {
            decls.push(Decl::Blob { id: o.id, blob: b, part: 2, refs: 0, cells: 0 });
            data.push(Dat::Blob { refs: vec![], cells: vec![], blob: b });
        }
    }
    let meta = if bo.meta { Some(decls.iter().enumerate().map(|(i, _)| (i % 5) as u64).collect()) } else { None };
    Body::Group { decls, meta, data }
}

/// ids of the fixed parts
pub fn hdr_cell() -> Cell {
    Cell(Ex::new([0x11; 16], 1), Ex::new([0x12; 16], 1))
}

impl StoreIR {
    pub fn build(&self, bo: &BuildOpts) -> Package {
        let mut elems = vec![];
        let mut si = vec![];
        let si_id = eid(1);
        let sm_id = eid(2);
        si.push(SI::Manifest { id: sm_id, serial: Some((GSER, 1)) });
        // header cell
        let (hcm, hrev, hrm, hg, hobj) = (eid(3), Ex::new([0x13; 16], 1), eid(4), eid(5), Ex::new([0x14; 16], 1));
        si.push(SI::Cell { cell: hdr_cell(), id: hcm, serial: Some((GSER, 2)) });
        si.push(SI::Rev { id: hrev, map: hrm, serial: Some((GSER, 3)) });
        let root = self.spaces[0].cell;
        elems.push(Elem::new(
            sm_id,
            Body::StorageManifest {
                schema: self.schema,
                roots: vec![(Ex::new(C.hdr_root, 1), hdr_cell()), (Ex::new(C.data_root, 2), root)],
            },
        ));
        elems.push(Elem::new(hcm, Body::CellManifest(hrev)));
        elems.push(Elem::new(
            hrm,
            Body::RevManifest {
                rev: hrev,
                base: Ex::NIL,
                entries: vec![RM::Root { role: Ex::new(C.role, 1), obj: hobj }, RM::Group(hg)],
            },
        ));
        let hprops = vec![
            Prop::new(0x1C001D94, PV::Vec([0x21; 16].to_vec())),
            Prop::new(0x1C001D95, PV::Vec([0x22; 16].to_vec())),
            Prop::new(0x14001D93, PV::U32(0xCAFE)),
        ];
        elems.push(Elem::new(
            hg,
            group_body(&[Obj { id: hobj, jcid: 0x0012_00FF, props: hprops, blob: None }], &hdr_cell().1, bo),
        ));
        let mut ser = 10u64;
        for s in &self.spaces {
            ser += 1;
            si.push(SI::Cell { cell: s.cell, id: s.manifest, serial: Some((GSER, ser)) });
            let newest = s.revs.first().map(|r| r.rev).unwrap_or(Ex::NIL);
            elems.push(Elem::new(s.manifest, Body::CellManifest(newest)));
            for r in &s.revs {
                ser += 1;
                si.push(SI::Rev { id: r.rev, map: r.manifest, serial: Some((GSER, ser)) });
                let mut entries: Vec<RM> =
                    r.roots.iter().map(|(n, o)| RM::Root { role: Ex::new(C.role, *n), obj: *o }).collect();
                entries.extend(r.groups.iter().map(|g| RM::Group(g.id)));
                elems.push(Elem::new(r.manifest, Body::RevManifest { rev: r.rev, base: r.base, entries }));
                for gr in &r.groups {
                    elems.push(Elem::new(gr.id, group_body(&gr.objs, &s.cell.1, bo)));
                }
            }
        }
        for (id, b) in &self.blobs {
            elems.push(Elem::new(*id, Body::Blob(b.clone())));
        }
        elems.insert(0, Elem::new(si_id, Body::StorageIndex(si)));
        Package { layout: bo.layout, storage_index: si_id, elems, trailing: vec![] }
    }
}

pub type ObjMap = HashMap<Ex, Obj>;

impl Package {
    /// Apply `f` to every extended GUID of the package.
    pub fn remap(&mut self, f: &dyn Fn(Ex) -> Ex) {
        self.remap_ns(&|_, x| f(x))
    }
    /// Apply `f` to every extended GUID of the package, given what it names.
    pub fn remap_ns(&mut self, f: &dyn Fn(Ns, Ex) -> Ex) {
        let fc = |c: &mut Cell| *c = Cell(f(Ns::Context, c.0), f(Ns::Space, c.1));
        let fo = |x: &mut Ex| *x = f(Ns::Object, *x);
        self.storage_index = f(Ns::Index, self.storage_index);
        for e in &mut self.elems {
            e.id = f(e.body.ns(), e.id);
            match &mut e.body {
                Body::StorageIndex(v) => {
                    for s in v {
                        match s {
                            SI::Manifest { id, .. } => *id = f(Ns::Storage, *id),
                            SI::Cell { cell, id, .. } => {
                                fc(cell);
                                *id = f(Ns::CellManifest, *id)
                            }
                            SI::Rev { id, map, .. } => {
                                *id = f(Ns::Revision, *id);
                                *map = f(Ns::RevManifest, *map)
                            }
                        }
                    }
                }
                Body::StorageManifest { roots, .. } => roots.iter_mut().for_each(|r| {
                    r.0 = f(Ns::Root, r.0);
                    fc(&mut r.1)
                }),
                Body::CellManifest(x) => *x = f(Ns::Revision, *x),
                Body::RevManifest { rev, base, entries } => {
                    *rev = f(Ns::Revision, *rev);
                    *base = f(Ns::Revision, *base);
                    for r in entries {
                        match r {
                            RM::Root { role, obj } => {
                                *role = f(Ns::Role, *role);
                                fo(obj)
                            }
                            RM::Group(g) => *g = f(Ns::Group, *g),
                        }
                    }
                }
                Body::Group { decls, data, .. } => {
                    for d in decls {
                        match d {
                            Decl::Obj { id, .. } => fo(id),
                            Decl::Blob { id, blob, .. } => {
                                fo(id);
                                *blob = f(Ns::Blob, *blob)
                            }
                        }
                    }
                    for d in data {
                        match d {
                            Dat::Obj { refs, cells, .. } | Dat::Excluded { refs, cells, .. } => {
                                refs.iter_mut().for_each(fo);
                                cells.iter_mut().for_each(fc)
                            }
                            Dat::Blob { refs, cells, blob } => {
                                refs.iter_mut().for_each(fo);
                                cells.iter_mut().for_each(fc);
                                *blob = f(Ns::Blob, *blob)
                            }
                        }
                    }
                }
                Body::Fragment { id, .. } => *id = f(Ns::Fragment, *id),
                Body::Blob(_) => {}
            }
        }
    }
}
/// what an extended GUID names
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ns {
    Index,
    Storage,
    CellManifest,
    RevManifest,
    Group,
    Blob,
    Fragment,
    Revision,
    Object,
    Space,
    Context,
    Role,
    Root,
}
impl Body {
    fn ns(&self) -> Ns {
        match self {
            Body::StorageIndex(_) => Ns::Index,
            Body::StorageManifest { .. } => Ns::Storage,
            Body::CellManifest(_) => Ns::CellManifest,
            Body::RevManifest { .. } => Ns::RevManifest,
            Body::Group { .. } => Ns::Group,
            Body::Fragment { .. } => Ns::Fragment,
            Body::Blob(_) => Ns::Blob,
        }
    }
}
