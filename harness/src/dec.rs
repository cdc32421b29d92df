//! Independent decoder, the inverse of `store.rs`: bytes of a real file to the
//! package model, and the package model to the abstract store.  It is strict and
//! panics on whatever it does not know; it only sees the sample files of the
//! repository and what the harness itself encoded.
use crate::enc::*;
use crate::store::*;
use std::collections::HashMap;
use std::sync::LazyLock;

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
enum Item {
    Obj { ty: u16, len: usize },
    End(u16),
}
impl Rd<'_> {
    fn u8(&mut self) -> u8 {
        self.i += 1;
        self.b[self.i - 1]
    }
    fn peek(&self) -> u8 {
        self.b[self.i]
    }
    fn take(&mut self, n: usize) -> &[u8] {
        self.i += n;
        &self.b[self.i - n..self.i]
    }
    fn le(&mut self, n: usize) -> u64 {
        let mut x = [0; 8];
        x[..n].copy_from_slice(self.take(n));
        u64::from_le_bytes(x)
    }
    fn guid(&mut self) -> G {
        self.take(16).try_into().unwrap()
    }
    fn cu(&mut self) -> u64 {
        let f = self.peek();
        if f == 0 {
            self.i += 1;
            return 0;
        }
        let w = f.trailing_zeros() as usize + 1;
        if w == 8 {
            self.i += 1;
            return self.le(8);
        }
        self.le(w) >> w
    }
    fn ex(&mut self) -> Ex {
        let f = self.peek();
        let n = if f == 0 {
            self.i += 1;
            return Ex::NIL;
        } else if f & 7 == 4 {
            self.le(1) >> 3
        } else if f & 0x3f == 0x20 {
            self.le(2) >> 6
        } else if f & 0x7f == 0x40 {
            self.le(3) >> 7
        } else {
            assert_eq!(f, 0x80);
            self.i += 1;
            self.le(4)
        };
        Ex { n: n as u32, g: self.guid() }
    }
    fn cell(&mut self) -> Cell {
        let a = self.ex();
        Cell(a, self.ex())
    }
    fn exs(&mut self) -> Vec<Ex> {
        (0..self.cu()).map(|_| self.ex()).collect()
    }
    fn cells(&mut self) -> Vec<Cell> {
        (0..self.cu()).map(|_| self.cell()).collect()
    }
    fn serial(&mut self) -> Serial {
        let f = self.u8();
        if f == 0 {
            return None;
        }
        assert_eq!(f, 0x80);
        let g = self.guid();
        Some((g, self.le(8)))
    }
    fn item(&mut self) -> Item {
        match self.peek() & 3 {
            0 => {
                let v = self.le(2) as u16;
                Item::Obj { ty: v >> 3 & 0x3f, len: (v >> 9) as usize }
            }
            2 => {
                let v = self.le(4) as u32;
                let mut len = (v >> 17) as usize;
                if len == 0x7fff {
                    len = self.cu() as usize;
                }
                Item::Obj { ty: (v >> 3 & 0x3fff) as u16, len }
            }
            1 => Item::End(self.u8() as u16 >> 2),
            _ => Item::End(self.le(2) as u16 >> 2),
        }
    }
    /// start of the stream object `ty`; the position where its own data ends
    fn obj(&mut self, ty: u16) -> usize {
        match self.item() {
            Item::Obj { ty: t, len } if t == ty => self.i + len,
            Item::Obj { ty: t, .. } => panic!("stream object {t:x} instead of {ty:x} at {}", self.i),
            Item::End(t) => panic!("end of {t:x} instead of {ty:x} at {}", self.i),
        }
    }
    fn end(&mut self, ty: u16) {
        match self.item() {
            Item::End(t) if t == ty => {}
            _ => panic!("no end of {ty:x} at {}", self.i),
        }
    }
    /// the next stream object, or None at the end of `of`
    fn next(&mut self, of: u16) -> Option<(u16, usize)> {
        match self.item() {
            Item::Obj { ty, len } => Some((ty, self.i + len)),
            Item::End(t) => {
                assert_eq!(t, of);
                None
            }
        }
    }
}

pub fn package(b: &[u8]) -> Package {
    let mut r = Rd { b, i: 32 };
    let legacy = r.guid();
    let fmt = r.guid();
    let layout = if fmt == C.fmt_pkg {
        Layout::Package
    } else {
        assert_eq!(fmt, C.fmt_rev);
        if legacy == [0; 16] {
            // full revision store header: the transaction log is followed by a package
            r.i = 160;
            let (stp, cb) = (r.le(8), r.le(4));
            let end = (stp + cb) as usize;
            r.i = end + 64;
            Layout::RevFull { gap: (end - 172) as u32 }
        } else {
            Layout::RevLegacy
        }
    };
    assert_eq!(r.le(4), 0);
    let e = r.obj(0x7a);
    let storage_index = r.ex();
    r.guid();
    assert_eq!(r.i, e);
    let e = r.obj(0x15);
    assert_eq!(r.u8(), 0);
    assert_eq!(r.i, e);
    let mut elems = vec![];
    while let Some((ty, e)) = r.next(0x15) {
        assert_eq!(ty, 1);
        let id = r.ex();
        let serial = r.serial();
        let kind = r.cu();
        assert_eq!(r.i, e);
        let body = body(&mut r, kind);
        elems.push(Elem { id, serial, body, ty: None });
    }
    r.end(0x7a);
    let trailing = b[r.i..].to_vec();
    Package { layout, storage_index, elems, trailing }
}

fn body(r: &mut Rd, kind: u64) -> Body {
    let out = match kind {
        1 => {
            let mut v = vec![];
            while let Some((ty, e)) = r.next(1) {
                v.push(match ty {
                    0x11 => SI::Manifest { id: r.ex(), serial: r.serial() },
                    0x0e => SI::Cell { cell: r.cell(), id: r.ex(), serial: r.serial() },
                    0x0d => SI::Rev { id: r.ex(), map: r.ex(), serial: r.serial() },
                    _ => panic!("storage index item {ty:x}"),
                });
                assert_eq!(r.i, e);
            }
            return Body::StorageIndex(v);
        }
        2 => {
            let e = r.obj(0x0c);
            let schema = r.guid();
            assert_eq!(r.i, e);
            let mut roots = vec![];
            while let Some((ty, e)) = r.next(1) {
                assert_eq!(ty, 7);
                roots.push((r.ex(), r.cell()));
                assert_eq!(r.i, e);
            }
            return Body::StorageManifest { schema, roots };
        }
        3 => {
            let e = r.obj(0x0b);
            let x = r.ex();
            assert_eq!(r.i, e);
            Body::CellManifest(x)
        }
        4 => {
            let e = r.obj(0x1a);
            let (rev, base) = (r.ex(), r.ex());
            assert_eq!(r.i, e);
            let mut entries = vec![];
            while let Some((ty, e)) = r.next(1) {
                entries.push(match ty {
                    0x0a => RM::Root { role: r.ex(), obj: r.ex() },
                    0x19 => RM::Group(r.ex()),
                    _ => panic!("revision manifest item {ty:x}"),
                });
                assert_eq!(r.i, e);
            }
            return Body::RevManifest { rev, base, entries };
        }
        5 => {
            r.obj(0x1d);
            let mut decls = vec![];
            while let Some((ty, e)) = r.next(0x1d) {
                decls.push(match ty {
                    0x18 => Decl::Obj { id: r.ex(), part: r.cu(), size: r.cu(), refs: r.cu(), cells: r.cu() },
                    0x05 => Decl::Blob { id: r.ex(), blob: r.ex(), part: r.cu(), refs: r.cu(), cells: r.cu() },
                    _ => panic!("declaration {ty:x}"),
                });
                assert_eq!(r.i, e);
            }
            let mut meta = None;
            let at = r.i;
            if let Item::Obj { ty: 0x79, .. } = r.item() {
                let mut m = vec![];
                while let Some((ty, e)) = r.next(0x79) {
                    assert_eq!(ty, 0x78);
                    m.push(r.cu());
                    assert_eq!(r.i, e);
                }
                meta = Some(m);
            } else {
                r.i = at;
            }
            r.obj(0x1e);
            let mut data = vec![];
            while let Some((ty, e)) = r.next(0x1e) {
                let (refs, cells) = (r.exs(), r.cells());
                data.push(match ty {
                    0x16 => {
                        let n = r.cu() as usize;
                        Dat::Obj { refs, cells, data: r.take(n).to_vec(), marks: vec![] }
                    }
                    0x03 => Dat::Excluded { refs, cells, size: r.cu() },
                    0x1c => Dat::Blob { refs, cells, blob: r.ex() },
                    _ => panic!("object data {ty:x}"),
                });
                assert_eq!(r.i, e);
            }
            Body::Group { decls, meta, data }
        }
        6 => {
            let e = r.obj(0x6a);
            let (id, size, off, len) = (r.ex(), r.cu(), r.cu(), r.cu());
            let data = r.take(len as usize).to_vec();
            assert_eq!(r.i, e);
            Body::Fragment { id, size, off, len, data }
        }
        10 => {
            let e = r.obj(0x02);
            let n = r.cu() as usize;
            let d = r.take(n).to_vec();
            assert_eq!(r.i, e);
            Body::Blob(d)
        }
        _ => panic!("data element type {kind}"),
    };
    r.end(1);
    out
}

// ---------------------------------------------------------------- store

struct Left<'a> {
    o: std::slice::Iter<'a, Ex>,
    s: std::slice::Iter<'a, Cell>,
    c: std::slice::Iter<'a, Cell>,
}
fn set(r: &mut Rd, l: &mut Left) -> Vec<Prop> {
    let n = r.le(2);
    let ids: Vec<u32> = (0..n).map(|_| r.le(4) as u32).collect();
    ids.into_iter()
        .map(|id| {
            let v = match id >> 26 & 31 {
                1 => PV::Empty,
                2 => PV::Bool(id >> 31 == 1),
                3 => PV::U8(r.u8()),
                4 => PV::U16(r.le(2) as u16),
                5 => PV::U32(r.le(4) as u32),
                6 => PV::U64(r.le(8)),
                7 => {
                    let n = r.le(4) as usize;
                    PV::Vec(r.take(n).to_vec())
                }
                8 => PV::Oid(*l.o.next().unwrap()),
                9 => PV::Oids((0..r.le(4)).map(|_| *l.o.next().unwrap()).collect()),
                10 => PV::Osid(*l.s.next().unwrap()),
                11 => PV::Osids((0..r.le(4)).map(|_| *l.s.next().unwrap()).collect()),
                12 => PV::Ctx(l.c.next().unwrap().0),
                13 => PV::Ctxs((0..r.le(4)).map(|_| l.c.next().unwrap().0).collect()),
                16 => {
                    let n = r.le(4);
                    let id = r.le(4) as u32;
                    PV::Vals(id, (0..n).map(|_| set(r, l)).collect())
                }
                17 => PV::Set(set(r, l)),
                t => panic!("property type {t}"),
            };
            Prop { id: id & 0x3ff_ffff, v }
        })
        .collect()
}
/// the property stream of an object
pub fn props(data: &[u8], refs: &[Ex], cells: &[Cell]) -> Vec<Prop> {
    let mut r = Rd { b: data, i: 0 };
    let h = r.le(4) as u32;
    let no = (h & 0xff_ffff) as usize;
    r.take(4 * no);
    let (mut ns, mut nc) = (0, 0);
    if h >> 31 == 0 {
        let h = r.le(4) as u32;
        ns = (h & 0xff_ffff) as usize;
        r.take(4 * ns);
        if h >> 30 & 1 == 1 {
            nc = (r.le(4) as u32 & 0xff_ffff) as usize;
            r.take(4 * nc);
        }
    }
    // nil references have no entry in the table
    let mut rest = refs.iter();
    let oids: Vec<Ex> = (0..no)
        .map(|i| if data[4 + 4 * i..8 + 4 * i] == [0; 4] { Ex::NIL } else { *rest.next().unwrap() })
        .collect();
    assert_eq!((rest.len(), ns + nc), (0, cells.len()));
    let mut l = Left { o: oids.iter(), s: cells[..ns].iter(), c: cells[ns..].iter() };
    let v = set(&mut r, &mut l);
    assert_eq!(l.o.len() + l.s.len() + l.c.len(), 0);
    assert!(data[r.i..].iter().all(|x| *x == 0) && data.len() - r.i < 8);
    v
}

pub fn store(p: &Package) -> StoreIR {
    let by: HashMap<Ex, &Elem> = p.elems.iter().map(|e| (e.id, e)).collect();
    assert_eq!(by.len(), p.elems.len());
    let Body::StorageIndex(si) = &by[&p.storage_index].body else { panic!() };
    let man = si.iter().find_map(|x| if let SI::Manifest { id, .. } = x { Some(*id) } else { None }).unwrap();
    let Body::StorageManifest { schema, roots } = &by[&man].body else { panic!() };
    let root = |g: G| roots.iter().find(|r| r.0.g == g).unwrap().1;
    let (hdr, data) = (root(C.hdr_root), root(C.data_root));
    let cells: Vec<(Cell, Ex)> =
        si.iter().filter_map(|x| if let SI::Cell { cell, id, .. } = x { Some((*cell, *id)) } else { None }).collect();
    let revs: HashMap<Ex, Ex> =
        si.iter().filter_map(|x| if let SI::Rev { id, map, .. } = x { Some((*id, *map)) } else { None }).collect();
    let mut spaces: Vec<SpaceIR> = cells
        .iter()
        .filter(|(c, id)| *c != hdr && !id.is_nil())
        .map(|(cell, id)| {
            let Body::CellManifest(mut rev) = by[id].body else { panic!() };
            let mut out = vec![];
            while !rev.is_nil() {
                let manifest = revs[&rev];
                let Body::RevManifest { rev: me, base, entries } = &by[&manifest].body else { panic!() };
                assert_eq!(*me, rev);
                let mut r = RevIR { rev, manifest, base: *base, groups: vec![], roots: vec![] };
                for e in entries {
                    match e {
                        RM::Root { role, obj } => {
                            assert_eq!(role.g, C.role);
                            r.roots.push((role.n, *obj))
                        }
                        RM::Group(g) => r.groups.push(GroupIR { id: *g, objs: group(&by[g].body) }),
                    }
                }
                out.push(r);
                rev = *base;
            }
            SpaceIR { cell: *cell, manifest: *id, revs: out }
        })
        .collect();
    // revisions and groups used by several spaces become separate ones
    let mut seen = std::collections::HashSet::new();
    for (k, sp) in spaces.iter_mut().enumerate() {
        let own = |e: Ex| if e.is_nil() { e } else { Ex { g: e.g.map(|b| b ^ 0x5a), n: e.n ^ ((k as u32 + 1) << 20) } };
        let mut shared = false;
        for r in &sp.revs {
            shared |= !seen.insert(r.rev) | !seen.insert(r.manifest);
            for g in &r.groups {
                shared |= !seen.insert(g.id);
            }
        }
        if shared {
            for r in &mut sp.revs {
                r.rev = own(r.rev);
                r.base = own(r.base);
                r.manifest = own(r.manifest);
                r.groups.iter_mut().for_each(|g| g.id = own(g.id));
            }
        }
    }
    let k = spaces.iter().position(|s| s.cell == data).unwrap();
    spaces.swap(0, k);
    let blobs =
        p.elems.iter().filter_map(|e| if let Body::Blob(d) = &e.body { Some((e.id, d.clone())) } else { None }).collect();
    StoreIR { schema: *schema, spaces, blobs }
}
fn group(b: &Body) -> Vec<Obj> {
    let Body::Group { decls, data, .. } = b else { panic!() };
    assert_eq!(decls.len(), data.len());
    let mut out: Vec<Obj> = vec![];
    let mut at: HashMap<Ex, usize> = HashMap::new();
    for (d, x) in decls.iter().zip(data) {
        let (id, part) = match d {
            Decl::Obj { id, part, .. } | Decl::Blob { id, part, .. } => (*id, *part),
        };
        let k = *at.entry(id).or_insert_with(|| {
            out.push(Obj { id, jcid: 0, props: vec![], blob: None });
            out.len() - 1
        });
        let o = &mut out[k];
        match (part, x) {
            (4, Dat::Obj { data, .. }) => o.jcid = u32::from_le_bytes(data[..4].try_into().unwrap()),
            (1, Dat::Obj { refs, cells, data, .. }) => o.props = props(data, refs, cells),
            (2, Dat::Blob { blob, .. }) => o.blob = Some(*blob),
            (p, x) => panic!("partition {p}: {x:?}"),
        }
    }
    out
}

// ---------------------------------------------------------------- samples

pub struct Sample {
    pub name: String,
    pub toc: bool,
    pub bytes: Vec<u8>,
    pub pkg: Package,
    pub ir: StoreIR,
    /// the same with short file data
    pub small: StoreIR,
}
/// the sample files of the repository, smallest first
pub static SAMPLES: LazyLock<Vec<Sample>> = LazyLock::new(|| {
    let mut v: Vec<Sample> = crate::checks::c01::REAL
        .iter()
        .map(|(name, bytes)| {
            let pkg = package(bytes);
            let ir = store(&pkg);
            let mut small = ir.clone();
            small.blobs.iter_mut().for_each(|b| b.1.truncate(50));
            Sample { small, name: name.clone(), toc: name.ends_with("onetoc2"), bytes: bytes.clone(), pkg, ir }
        })
        .collect();
    v.sort_by_key(|s| s.bytes.len());
    v
});
