//! Variable-width encodings.
use crate::enc::*;
use crate::explore::*;
use crate::model::*;
use crate::store::*;
use crate::util::*;
use std::sync::LazyLock;

pub struct Base {
    pub ir: StoreIR,
    pub pkg: Package,
    pub exp: XR<crate::tree::T>,
    pub compacts: Vec<(u64, &'static str)>,
    pub exs: Vec<(Ex, &'static str)>,
    pub serials: Vec<(Serial, &'static str)>,
    /// compact / extended GUID fields before the first space's elements
    pub skip: (usize, usize),
    /// extended GUID fields of the storage index
    pub nsi: usize,
}
fn read_cu(b: &[u8]) -> u64 {
    if b[0] == 0 {
        return 0;
    }
    let w = b[0].trailing_zeros();
    if w == 7 {
        return u64::from_le_bytes(b[1..9].try_into().unwrap());
    }
    let mut v = 0u64;
    for i in 0..=w as usize {
        v |= (b[i] as u64) << (8 * i);
    }
    v >> (w + 1)
}
fn read_ex(b: &[u8]) -> Ex {
    if b[0] == 0 {
        return Ex::NIL;
    }
    let (n, l): (u32, usize) = if b[0] & 7 == 4 {
        ((b[0] >> 3) as u32, 1)
    } else if b[0] & 63 == 32 {
        ((b[0] as u32 | (b[1] as u32) << 8) >> 6, 2)
    } else if b[0] & 127 == 64 {
        ((b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16) >> 7, 3)
    } else {
        (u32::from_le_bytes(b[1..5].try_into().unwrap()), 5)
    };
    Ex::new(b[l..l + 16].try_into().unwrap(), n)
}
fn spread(e: Ex) -> Ex {
    if ![GEN, GOBJ, GBLOB, GREV].contains(&e.g) {
        return e;
    }
    let mut g = e.g;
    g[4..8].copy_from_slice(&e.n.wrapping_mul(0x9E37_79B9).to_le_bytes());
    g[8..12].copy_from_slice(&e.n.wrapping_mul(0x85EB_CA6B).to_le_bytes());
    Ex::new(g, e.n % 32)
}
/// a page with a paragraph, an attachment and an image, all fields in use
pub fn base() -> Base {
    let mut b = B::new();
    let t = b.para("hello");
    let o = b.wrap(&[t]);
    let f = b.file("a.bin", (0..200u32).map(|i| (i * 7) as u8).collect());
    let i = b.file("i", vec![1, 2, 3]);
    let ir = section1(b, &[o, f, i], None);
    let bo = BuildOpts { meta: false, ..Default::default() };
    let mut pkg = ir.build(&bo);
    // spread the identifiers of the data elements so that no two differ in one bit
    pkg.remap(&spread);
    // fields of the header cell's own elements are resolved differently
    let skip = {
        let mut p = pkg.clone();
        p.elems.truncate(5);
        let c = |k: K| p.encode(&Opts { marks: true, ..Default::default() }).1.iter().filter(|m| m.k == k).count();
        (c(K::Compact), c(K::ExGuid))
    };
    let nsi = {
        let mut p = pkg.clone();
        p.elems.truncate(1);
        p.encode(&Opts { marks: true, ..Default::default() }).1.iter().filter(|m| m.k == K::ExGuid).count()
    };
    // an element nothing refers to
    pkg.elems.push(Elem::new(Ex::new([0x77; 16], 3), Body::Blob(vec![9; 5])));
    let (bytes, marks) = pkg.encode(&Opts { marks: true, ..Default::default() });
    let sel = |k: K| marks.iter().filter(move |m| m.k == k).cloned().collect::<Vec<_>>();
    let compacts = sel(K::Compact).iter().map(|m| (read_cu(&bytes[m.off..]), m.tag)).collect();
    let exs = sel(K::ExGuid).iter().map(|m| (read_ex(&bytes[m.off..]), m.tag)).collect();
    let serials = sel(K::Serial)
        .iter()
        .map(|m| {
            let b = &bytes[m.off..];
            let v: Serial = if b[0] == 0 {
                None
            } else {
                Some((b[1..17].try_into().unwrap(), u64::from_le_bytes(b[17..25].try_into().unwrap())))
            };
            (v, m.tag)
        })
        .collect();
    let exp = expect_section(&ir, NAME);
    Base { ir, pkg, exp, compacts, exs, serials, skip, nsi }
}
pub static BASE: LazyLock<Base> = LazyLock::new(base);

const WIDTHS: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 9];
fn bits(w: u8) -> u32 {
    if w == 9 { 64 } else { 7 * w as u32 }
}
pub fn enc_cu(v: u64, w: u8) -> Vec<u8> {
    let mut x = W::new(&Opts::default());
    x.cuw(v, w);
    x.b
}
fn enc_ex(e: &Ex, f: u8) -> Vec<u8> {
    let mut x = W::new(&Opts::default());
    x.exf(e, f);
    x.b
}
fn ex_bits(f: u8) -> u32 {
    [5, 10, 17, 32][f as usize]
}

/// fields whose value decides what is read: any other value must be refused
const CRIT: &[&str] =
    &["elem_type", "decl.part", "declb.part", "gobj.refs", "gobj.cells", "gobj.size", "gblob.refs", "gblob.cells", "blob.size"];
/// identifiers that resolution passes through
const IDS: &[&str] = &[
    "elem_id", "root_id", "root_cell", "cell_manifest", "rev_root.role", "rev_root.obj", "rev_group", "decl.id", "declb.id",
    "gobj.refs", "gobj.cells", "gblob.blob", "si_cell.cell", "si_cell.id", "si_rev.id", "si_rev.map", "si.cell", "si.id", "si.map",
];

// ------------------------------------------------------------ near identifiers

/// Where a package gives an identifier its meaning.
#[derive(Clone, Copy, Debug)]
pub enum Def {
    Elem(usize),
    /// cell mapping, entry of the storage index
    SiCell(usize, usize),
    SiRev(usize, usize),
    StoreRoot(usize, usize),
    Role(usize, usize),
    /// object of a group
    Obj(usize, Ex),
}
pub fn defs(pk: &Package) -> Vec<Def> {
    let mut v = vec![];
    for (i, e) in pk.elems.iter().enumerate() {
        v.push(Def::Elem(i));
        match &e.body {
            Body::StorageIndex(l) => {
                for (k, s) in l.iter().enumerate() {
                    match s {
                        SI::Cell { .. } => v.push(Def::SiCell(i, k)),
                        SI::Rev { .. } => v.push(Def::SiRev(i, k)),
                        SI::Manifest { .. } => {}
                    }
                }
            }
            Body::StorageManifest { roots, .. } => v.extend((0..roots.len()).map(|k| Def::StoreRoot(i, k))),
            Body::RevManifest { entries, .. } => {
                v.extend((0..entries.len()).filter(|k| matches!(entries[*k], RM::Root { .. })).map(|k| Def::Role(i, k)))
            }
            Body::Group { decls, .. } => {
                let mut ids: Vec<Ex> = decls.iter().map(did).collect();
                ids.dedup();
                v.extend(ids.into_iter().map(|x| Def::Obj(i, x)));
            }
            _ => {}
        }
    }
    v
}
fn did(d: &Decl) -> Ex {
    match d {
        Decl::Obj { id, .. } | Decl::Blob { id, .. } => *id,
    }
}
/// The i-th identifier that resembles `x` in the given way.
pub fn near(x: Ex, how: usize, i: u32) -> Ex {
    let mut y = x;
    match how {
        0 => y.n ^= 1 << (9 + i),
        1 => y.n ^= 1 << (31 - i),
        2 => y.n = y.n.wrapping_add(0x101 * (i + 1)),
        3 => y.g[i as usize] ^= 1 << (i % 8),
        4 => y.g[15 - i as usize] ^= 0x80 >> (i % 8),
        5 => y.g[8 + i as usize] ^= 0x10,
        6 => {
            y.g.rotate_left(1 + i as usize);
            y.g[3] ^= (y.g == x.g) as u8 * (i as u8 + 1);
        }
        _ => y.g = [0x91 + i as u8; 16],
    }
    y
}
/// Replace the definition by copies of it under the given mapping of its
/// identifier; without any it is removed.
pub fn redefine(pk: &mut Package, d: Def, ids: &[&dyn Fn(Ex) -> Ex], second: bool) {
    let fc = |c: Cell, f: &dyn Fn(Ex) -> Ex| if second { Cell(c.0, f(c.1)) } else { Cell(f(c.0), c.1) };
    match d {
        Def::Elem(i) => {
            let e = pk.elems.remove(i);
            for (k, f) in ids.iter().enumerate() {
                let mut x = e.clone();
                x.id = f(x.id);
                pk.elems.insert(i + k, x);
            }
        }
        Def::SiCell(i, k) | Def::SiRev(i, k) => {
            let Body::StorageIndex(l) = &mut pk.elems[i].body else { unreachable!() };
            let s = l.remove(k);
            for (j, f) in ids.iter().enumerate() {
                let mut x = s.clone();
                match &mut x {
                    SI::Cell { cell, serial, .. } => {
                        *cell = fc(*cell, f);
                        *serial = None
                    }
                    SI::Rev { id, serial, .. } => {
                        *id = f(*id);
                        *serial = None
                    }
                    _ => unreachable!(),
                }
                l.insert(k + j, x);
            }
        }
        Def::StoreRoot(i, k) => {
            let Body::StorageManifest { roots, .. } = &mut pk.elems[i].body else { unreachable!() };
            let r = roots.remove(k);
            for (j, f) in ids.iter().enumerate() {
                roots.insert(k + j, (f(r.0), r.1));
            }
        }
        Def::Role(i, k) => {
            let Body::RevManifest { entries, .. } = &mut pk.elems[i].body else { unreachable!() };
            let RM::Root { role, obj } = entries.remove(k) else { unreachable!() };
            for (j, f) in ids.iter().enumerate() {
                entries.insert(k + j, RM::Root { role: f(role), obj });
            }
        }
        Def::Obj(i, id) => {
            let Body::Group { decls, data, .. } = &mut pk.elems[i].body else { unreachable!() };
            let at: Vec<usize> = (0..decls.len()).filter(|k| did(&decls[*k]) == id).collect();
            let (a, n) = (at[0], at.len());
            let de: Vec<Decl> = decls.drain(a..a + n).collect();
            let da: Vec<Dat> = data.drain(a..a + n).collect();
            for (j, f) in ids.iter().enumerate() {
                for (x, (d, y)) in de.iter().zip(&da).enumerate() {
                    let mut d = d.clone();
                    match &mut d {
                        Decl::Obj { id, .. } | Decl::Blob { id, .. } => *id = f(*id),
                    }
                    decls.insert(a + j * n + x, d);
                    data.insert(a + j * n + x, y.clone());
                }
            }
        }
    }
}
/// Nothing that merely resembles an identifier stands in for it.
pub fn near_space(name: &'static str, parse: fn(&mut Cx, u64, &[u8]) -> Result<Got, Bad>, seeds: u64) -> Space {
    Space::new(
        name,
        format!("in a section with every kind of content, a section with three pages and a history of three revisions, every definition of an identifier (element, cell and revision mapping, store and revision root, object) is replaced by 1 to 3 copies under identifiers that resemble it in one of 8 ways (one part of it equal, the other different), in the first or second half of a cell id, {seeds} hash seeds: the same result as without the definition"),
        move |ch, cx| {
            let irs = near_bases();
            let ir = &irs[ch.choose("section", irs.len())];
            let pk = ir.build(&BuildOpts::default());
            let ds = defs(&pk);
            let d = ds[ch.choose("definition", ds.len())];
            let how = ch.choose("resemblance", 8);
            let second = matches!(d, Def::SiCell(..)) && ch.flag("second half");
            let k = 1 + ch.choose("copies", 3);
            if let Def::Elem(i) = d {
                // the only one is found under any identifier
                if k == 1 && matches!(pk.elems[i].body, Body::StorageIndex(_) | Body::StorageManifest { .. }) {
                    return Ok(());
                }
            }
            // the header's one object is taken whatever it is called
            if matches!(d, Def::Role(3, _) | Def::Obj(4, _)) {
                return Ok(());
            }
            // a root in an unknown role is an error
            if matches!(d, Def::Role(..)) {
                let mut b = pk;
                redefine(&mut b, d, &[&|x: Ex| near(x, how, 0)], second);
                return check_reject(cx, &b.bytes());
            }
            let seed = ch.choose("seed", seeds as usize) as u64;
            let fs: Vec<Box<dyn Fn(Ex) -> Ex>> = (0..k as u32).map(|i| Box::new(move |x: Ex| near(x, how, i)) as Box<dyn Fn(Ex) -> Ex>).collect();
            let fr: Vec<&dyn Fn(Ex) -> Ex> = fs.iter().map(|f| &**f).collect();
            let (mut a, mut b) = (pk.clone(), pk);
            redefine(&mut a, d, &[], second);
            redefine(&mut b, d, &fr, second);
            let (a, b) = (a.bytes(), b.bytes());
            cx.mix(&b);
            cx.mix(&seed.to_le_bytes());
            let ra = parse(cx, 0, &a)?;
            let rb = parse(cx, seed, &b)?;
            cx.outcome = got_hash(&rb);
            super::c06::agree(&ra, &rb, &format!("without {d:?} against {k} copies under other identifiers"))
        },
    )
}
fn near_bases() -> &'static [StoreIR] {
    static V: LazyLock<Vec<StoreIR>> = LazyLock::new(|| {
        let mut h = super::c07::pages(&[vec![2]]);
        // two older revisions of the page: one has all of its text, the older the rest
        let r = h.spaces[1].revs[0].clone();
        let objs = r.groups[0].objs.clone();
        let n = objs.len();
        let mut part = |i: u32, objs: &[Obj], base: Ex| {
            let mut x = r.clone();
            x.rev = Ex::new(GREV, 7700 + i);
            x.manifest = eid(7710 + i);
            x.base = base;
            x.groups = vec![GroupIR { id: eid(7720 + i), objs: objs.to_vec() }];
            x
        };
        let c = part(2, &objs[n / 2..], Ex::NIL);
        let b = part(1, &objs[n / 3..n / 2], c.rev);
        let mut a = r.clone();
        a.base = b.rev;
        a.groups[0].objs.truncate(n / 3);
        h.spaces[1].revs = vec![a, b, c];
        vec![crate::rich::rich(), super::c07::pages(&[vec![2, 3], vec![4, 2]]), h]
    });
    &V
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new(
        "compact-width-of-every-field",
        "every compact-integer field of a complete file x every width able to hold its value: same result",
        move |ch, cx| {
            let b = &*BASE;
            let k = ch.choose("field", b.compacts.len());
            let val = b.compacts[k].0;
            let ws: Vec<u8> = WIDTHS.iter().copied().filter(|w| bits(*w) >= 64 || val < 1 << bits(*w)).collect();
            let w = *ch.pick("width", &ws);
            let o = Opts { ovc: Some((k, enc_cu(val, w))), ..Default::default() };
            check_bytes(cx, &b.pkg.encode(&o).0, &b.exp)
        },
    ));
    v.push(Space::new(
        "compact-bit-flips",
        "every deciding compact-integer field x every width x every single-bit change of its value: refused",
        move |ch, cx| {
            let b = &*BASE;
            let f: Vec<usize> = (0..b.compacts.len()).filter(|i| *i >= b.skip.0 || b.compacts[*i].1 == "elem_type").filter(|i| CRIT.contains(&b.compacts[*i].1)).collect();
            let k = *ch.pick("field", &f);
            let val = b.compacts[k].0;
            let ws: Vec<u8> = WIDTHS.iter().copied().filter(|w| bits(*w) >= 64 || val < 1 << bits(*w)).collect();
            let w = *ch.pick("width", &ws);
            let bit = ch.choose("bit", bits(w) as usize);
            let o = Opts { ovc: Some((k, enc_cu(val ^ 1 << bit, w))), ..Default::default() };
            let r = check_reject(cx, &b.pkg.encode(&o).0);
            r.map_err(|mut e| {
                e.msg += &format!(" (field {} value {val} with bit {bit} changed, width {w})", b.compacts[k].1);
                e.key += &format!(" {}", b.compacts[k].1);
                e
            })
        },
    ));
    // the type of an unreferenced element: the whole value range of the narrow widths
    let etype = |v: u64, w: u8, cx: &mut Cx| -> R {
        let b = &*BASE;
        let n = b.compacts.iter().rposition(|c| c.1 == "elem_type").unwrap();
        let o = Opts { ovc: Some((n, if w == 0 { vec![0] } else { enc_cu(v, w) })), ..Default::default() };
        let bytes = b.pkg.encode(&o).0;
        let e = if v == 10 { b.exp.clone() } else { Err(X::Err) };
        check_bytes(cx, &bytes, &e).map_err(|mut e| {
            e.msg += &format!(" (element type stored as {v} in {w} bytes)");
            e
        })
    };
    v.push(Space::new("compact-all-values-1-2", "all 1-byte and all 2-byte compact integers as element type", move |ch, cx| {
        let w = ch.choose("width", 3);
        let v = match w {
            0 => 0,
            1 => ch.choose("value", 128),
            _ => ch.choose("value", 1 << 14),
        };
        etype(v as u64, w as u8, cx)
    }));
    if t == Tier::Thorough {
        v.push(Space::new("compact-all-values-3", "all 2^21 3-byte compact integers as element type", move |ch, cx| {
            let hi = ch.choose("high", 1 << 7);
            let lo = ch.choose("low", 1 << 14);
            etype((hi << 14 | lo) as u64, 3, cx)
        }));
    }
    v.push(Space::new(
        "compact-two-bit-values",
        "every width x every value with at most two bits changed from an accepted element type",
        move |ch, cx| {
            let w = *ch.pick("width", &WIDTHS);
            let n = bits(w) as usize;
            let i = ch.choose("bit1", n + 1);
            let j = ch.choose("bit2", n + 1);
            let f = |i: usize| if i < n { 1u64 << i } else { 0 };
            etype(10 ^ f(i) ^ f(j), w, cx)
        },
    ));
    v.push(Space::new(
        "sizes",
        "an attachment of every length 0..=600 (thorough 0..=40000) and around each width boundary, size field in every width",
        move |ch, cx| {
            let lim = if t == Tier::Quick { 601 } else { 40_001 };
            let edges = [(1usize << 14) - 1, 1 << 14, (1 << 14) + 1, 0x7ffe, 0x7fff, 0x8000, (1 << 21) - 1, 1 << 21, (1 << 21) + 1];
            let i = ch.choose("length", lim + edges.len());
            let n = if i < lim { i } else { edges[i - lim] };
            let mut b = B::new();
            let f = b.file("a", (0..n as u32).map(|i| (i ^ i >> 8 ^ i >> 16) as u8).collect());
            let ir = section1(b, &[f], None);
            let p = ir.build(&BuildOpts::default());
            let mut o = Opts::default();
            let ws: Vec<u8> = [0u8].into_iter().chain(WIDTHS.into_iter().filter(|w| bits(*w) >= 64 || (n as u64) < 1 << bits(*w))).collect();
            let w = if i >= lim || i % 97 == 0 || i < 300 { *ch.pick("width", &ws) } else { 0 };
            if w > 0 {
                // the blob size is the last compact field of the file
                let (bytes, marks) = p.encode(&Opts { marks: true, ..Default::default() });
                let c = marks.iter().filter(|m| m.k == K::Compact).count();
                let _ = bytes;
                o.ovc = Some((c - 1, enc_cu(n as u64, w)));
            }
            cx.mem_slack = 64 << 20;
            let exp = expect_section(&ir, NAME);
            check_bytes(cx, &p.encode(&o).0, &exp)
        },
    ));
    v.push(Space::new(
        "exguid-form-of-every-field",
        "every extended-GUID field x every form able to hold its value: same result",
        move |ch, cx| {
            let b = &*BASE;
            let k = ch.choose("field", b.exs.len());
            let e = b.exs[k].0;
            let fs: Vec<u8> = (0..4u8).filter(|f| ex_bits(*f) == 32 || e.n < 1 << ex_bits(*f)).collect();
            let f = *ch.pick("form", &fs);
            let o = Opts { ovx: Some((k, enc_ex(&e, f))), ..Default::default() };
            check_bytes(cx, &b.pkg.encode(&o).0, &b.exp)
        },
    ));
    v.push(Space::new(
        "exguid-bit-flips",
        "every deciding extended-GUID field x every form x every single-bit change of its number or GUID: refused",
        move |ch, cx| {
            let b = &*BASE;
            let f: Vec<usize> = (0..b.exs.len()).filter(|i| crit_ex(b, *i)).collect();
            let k = *ch.pick("field", &f);
            let mut e = b.exs[k].0;
            let fs: Vec<u8> = (0..4u8).filter(|f| ex_bits(*f) == 32 || e.n < 1 << ex_bits(*f)).collect();
            let fm = *ch.pick("form", &fs);
            let nb = ex_bits(fm) as usize;
            let bit = ch.choose("bit", nb + 128);
            if bit < nb {
                e.n ^= 1 << bit
            } else {
                e.g[(bit - nb) / 8] ^= 1 << ((bit - nb) % 8)
            }
            let o = Opts { ovx: Some((k, enc_ex(&e, fm))), ..Default::default() };
            check_reject(cx, &b.pkg.encode(&o).0).map_err(|mut x| {
                x.msg += &format!(" (identifier field #{k} {} with bit {bit} changed)", b.exs[k].1);
                x.key += &format!(" {}", b.exs[k].1);
                x
            })
        },
    ));
    v.push(Space::new(
        "exguid-first-bytes",
        "all 256 first bytes of an extended GUID, followed by any of 4 tails of the length the form needs",
        move |ch, cx| {
            let b = &*BASE;
            let f = ch.choose("first", 256) as u8;
            let fill = *ch.pick("tail", &[0x00u8, 0x5a, 0x80, 0xff]);
            let extra = if f == 0 {
                Some(0)
            } else if f & 7 == 4 {
                Some(16)
            } else if f & 63 == 32 {
                Some(17)
            } else if f & 127 == 64 {
                Some(18)
            } else if f == 128 {
                Some(20)
            } else {
                None
            };
            // the id of the element nothing refers to
            let k = b.exs.iter().rposition(|c| c.1 == "elem_id").unwrap();
            let mut raw = vec![f];
            raw.extend(std::iter::repeat_n(fill, extra.unwrap_or(16)));
            let o = Opts { ovx: Some((k, raw)), ..Default::default() };
            let exp = if extra.is_some() { b.exp.clone() } else { Err(X::Err) };
            check_bytes(cx, &b.pkg.encode(&o).0, &exp).map_err(|mut e| {
                e.msg += &format!(" (first byte {f:#04x})");
                e
            })
        },
    ));
    // objects whose numbers differ in one bit, declared and referenced in all forms
    let alias = |n: u32, m: u32, f1: u8, f2: u8, gbit: Option<usize>, cx: &mut Cx| -> R {
        let mut b = B::new();
        let t1 = b.para("first");
        let t2 = b.para("second");
        let o = b.wrap(&[t1, t2]);
        let mut ir = section1(b, &[o], None);
        let g: G = [0x3c; 16];
        let mut g2 = g;
        if let Some(i) = gbit {
            g2[i / 8] ^= 1 << (i % 8);
        }
        let (n1, n2) = (Ex::new(g, n), Ex::new(g2, m));
        rename(&mut ir, t1, n1);
        rename(&mut ir, t2, n2);
        let p = ir.build(&BuildOpts::default());
        let (bytes, marks) = p.encode(&Opts { marks: true, ..Default::default() });
        let xs: Vec<(Ex, &str)> =
            marks.iter().filter(|m| m.k == K::ExGuid).map(|m| (read_ex(&bytes[m.off..]), m.tag)).collect();
        // declaration of the first object in form f1, reference to the second in form f2
        let k1 = xs.iter().position(|x| x.0 == n1 && x.1 == "decl.id").unwrap();
        let k2 = xs.iter().position(|x| x.0 == n2 && x.1 == "gobj.refs").unwrap();
        let exp = expect_section(&ir, NAME);
        cx.mix(&bytes);
        for o in [
            Opts { ovx: Some((k1, enc_ex(&n1, f1))), ..Default::default() },
            Opts { ovx: Some((k2, enc_ex(&n2, f2))), ..Default::default() },
        ] {
            check_bytes(cx, &p.encode(&o).0, &exp).map_err(|mut e| {
                e.msg += &format!(" (objects {n1:?} and {n2:?})");
                e
            })?;
        }
        Ok(())
    };
    v.push(Space::new(
        "alias-guid-bits",
        "two objects whose identifiers differ in exactly one GUID bit (128 bits) x 4 forms",
        move |ch, cx| {
            let bit = ch.choose("bit", 128);
            let f = ch.choose("form", 4) as u8;
            alias(5, 5, f, f, Some(bit), cx)
        },
    ));
    v.push(Space::new(
        "alias-number-bits",
        "two objects whose numbers differ in exactly one bit: form of declaration x form of reference x bit x 4 base numbers",
        move |ch, cx| {
            let f1 = ch.choose("form1", 4) as u8;
            let f2 = ch.choose("form2", 4) as u8;
            let bit = ch.choose("bit", ex_bits(f2.max(f1)) as usize) as u32;
            let base = *ch.pick("base", &[0u32, 0x1f, 0x15, 0x0a]);
            let m = base ^ 1 << bit;
            // each number is stored in a form that can hold it
            let (n, m, f1, f2) = if f2 >= f1 { (base, m, f1, f2) } else { (m, base, f1, f2) };
            alias(n, m, f1, f2, None, cx)
        },
    ));
    v.push(Space::new(
        "exguid-all-numbers",
        "every number representable in the 5-, 10- (and thorough: 17-) bit forms, neighbour n^1 present as a decoy",
        move |ch, cx| {
            let f = ch.choose("form", if t == Tier::Quick { 2 } else { 3 }) as u8;
            let n = if f == 2 {
                let h = ch.choose("high", 1 << 8);
                (h << 9 | ch.choose("low", 1 << 9)) as u32
            } else {
                ch.choose("number", 1 << ex_bits(f)) as u32
            };
            alias(n, n ^ 1, f, f, None, cx)
        },
    ));
    v.push(Space::new(
        "serials",
        "every serial-number field: absent or present with any of 70 values/GUIDs: same result and exact consumption",
        move |ch, cx| {
            let b = &*BASE;
            let k = ch.choose("field", b.serials.len());
            let m = ch.choose("value", 70);
            let mut raw = vec![0u8];
            if m > 0 {
                raw[0] = 0x80;
                raw.extend([if m == 1 { 0 } else { 0x80 }; 16]);
                let v = match m {
                    1..=3 => [0, u64::MAX, 0x8080_8080_8080_8080][m - 1],
                    m => 1u64 << ((m - 4) % 64),
                };
                raw.extend(v.to_le_bytes());
            }
            let o = Opts { ovs: Some((k, raw)), ..Default::default() };
            check_bytes(cx, &b.pkg.encode(&o).0, &b.exp)
        },
    ));
    v.push(Space::new(
        "serial-resolution",
        "a page cell whose revision is only found by serial number, decoys differing in one bit of number or GUID",
        move |ch, cx| {
            let bit = ch.choose("bit", 64 + 128);
            let decoy_first = ch.flag("decoy-first");
            // the page's cell mapping points to nothing that can be resolved by id
            let ir = serial_store();
            let mut p = ir.build(&BuildOpts::default());
            let g: G = [0x99; 16];
            let v = 0x0102_0304_0506_0708u64;
            let (mut dg, mut dv) = (g, v);
            if bit < 64 { dv ^= 1 << bit } else { dg[(bit - 64) / 8] ^= 1 << ((bit - 64) % 8) }
            for e in &mut p.elems {
                if let Body::StorageIndex(si) = &mut e.body {
                    for s in si.iter_mut() {
                        match s {
                            SI::Cell { cell: c, id, serial } if *c == cell(2) => {
                                *id = Ex::new([0x66; 16], 6);
                                *serial = Some((g, v));
                            }
                            SI::Rev { map, serial, .. } if *map == eid(2001) => *serial = Some((g, v)),
                            SI::Rev { map, serial, .. } if *map == eid(3001) => *serial = Some((dg, dv)),
                            _ => {}
                        }
                    }
                    if decoy_first {
                        si.reverse();
                    }
                }
            }
            // cell 3 (the decoy) is only a carrier of a revision; drop its cell mapping
            for e in &mut p.elems {
                if let Body::StorageIndex(si) = &mut e.body {
                    si.retain(|s| !matches!(s, SI::Cell { cell: c, .. } if *c == cell(3)));
                }
            }
            let mut one = ir.clone();
            one.spaces.truncate(2);
            let exp = expect_section(&one, NAME);
            check_bytes(cx, &p.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "header-types-16",
        "every 16-bit stream-object header (2^16) at the start of an element",
        move |ch, cx| {
            let hi = ch.choose("high", 256);
            let lo = ch.choose("low", 256);
            let b = &*BASE;
            let n = header_index(b, "element");
            // the genuine header, whatever its length field, is accepted only if it is genuine
            let (good, raw) = (&b.pkg_header(n).0, vec![lo as u8, hi as u8]);
            let exp = if *good == raw {
                b.exp.clone()
            } else if lo & 3 == 0 && (lo as u16 | (hi as u16) << 8) >> 3 & 0x3f == 1 {
                // right type, other length or compound bit: no claim
                Err(X::Any)
            } else {
                Err(X::Err)
            };
            let o = Opts { ovh: Some((n, raw)), ..Default::default() };
            check_bytes(cx, &b.pkg.encode(&o).0, &exp)
        },
    ));
    v.push(Space::new(
        "header-types-32",
        "every 32-bit stream-object header type (2^14) x compound for the packaging object, and for a group data object",
        move |ch, cx| {
            let which = *ch.pick("object", &[("packaging", 0x7au32, true), ("gobj", 0x16, false), ("blob", 2, false)]);
            let hi = ch.choose("type-high", 1 << 7);
            let lo = ch.choose("type-low", 1 << 7);
            let ty = (hi << 7 | lo) as u32;
            let comp = ch.flag("compound");
            let b = &*BASE;
            let n = header_index(b, which.0);
            let len = b.pkg_header(n).1 as u32;
            let raw = (2 | (comp as u32) << 2 | ty << 3 | len << 17).to_le_bytes().to_vec();
            let exp = if ty == which.1 {
                if comp == which.2 { b.exp.clone() } else { Err(X::Any) }
            } else {
                Err(X::Err)
            };
            let o = Opts { ovh: Some((n, raw)), ..Default::default() };
            check_bytes(cx, &b.pkg.encode(&o).0, &exp)
        },
    ));
    v.push(Space::new(
        "header-long-lengths",
        "each object that permits 32-bit headers: short form, 32-bit form, 32-bit form with separate length in every width",
        move |ch, cx| {
            let b = &*BASE;
            let n = ch.choose("object", b.pkg_headers().len());
            let (old, len) = b.pkg_header(n);
            let ws = [0u8, 1, 2, 3, 4, 5, 6, 7, 9];
            let m = ch.choose("form", 2 + ws.len());
            let wide_ok = b.pkg_headers()[n].2;
            let mut o = Opts::default();
            let (ty, comp) = if old[0] & 3 == 0 {
                let v = u16::from_le_bytes([old[0], old[1]]);
                (((v >> 3) & 0x3f) as u32, v >> 2 & 1)
            } else {
                let v = u32::from_le_bytes([old[0], old[1], old[2], old[3]]);
                ((v >> 3) & 0x3fff, (v >> 2 & 1) as u16)
            };
            if m == 1 {
                if !wide_ok { return Ok(()); }
                o.ovh = Some((n, (2 | (comp as u32) << 2 | ty << 3 | (len as u32) << 17).to_le_bytes().to_vec()));
            } else if m > 1 {
                if !wide_ok { return Ok(()); }
                let w = ws[m - 2];
                let raw = if w == 0 {
                    if len != 0 { return Ok(()); }
                    vec![0]
                } else {
                    if bits(w) < 64 && len as u64 >= 1 << bits(w) { return Ok(()); }
                    enc_cu(len as u64, w)
                };
                let mut h = (2 | (comp as u32) << 2 | ty << 3 | 0x7fff << 17).to_le_bytes().to_vec();
                h.extend(raw);
                o.ovh = Some((n, h));
            }
            check_bytes(cx, &b.pkg.encode(&o).0, &b.exp)
        },
    ));
    v.push(near_space("near-identifiers", |cx, _, b| parse_buf(cx, b, NAME), 1));
    v.push(Space::new(
        "nearly-nil",
        "in a section with every kind of content, a section with three pages and a history of three revisions, every identifier takes one of 34 values that resemble the nil identifier (its GUID with number 0, a nil GUID with one of 17 numbers, a GUID with one byte set and number 0), in every form: same result",
        move |ch, cx| {
            let irs = near_bases();
            let ir = &irs[ch.choose("section", irs.len())];
            let mut pk = ir.build(&BuildOpts::default());
            let ids = std::cell::RefCell::new(std::collections::BTreeSet::new());
            pk.remap(&|e| {
                ids.borrow_mut().insert((e.g, e.n));
                e
            });
            let ids: Vec<(G, u32)> = ids.into_inner().into_iter().collect();
            let own: Vec<(G, u32)> = ids.iter().copied().filter(|(g, _)| *g != [0; 16] && ![C.hdr_root, C.data_root, C.role].contains(g)).collect();
            let (g, n) = *ch.pick("identifier", &own);
            let to = match ch.choose("value", 34) {
                0 => Ex::new(g, 0),
                k @ 1..=17 => Ex::new([0; 16], [1, 2, 4, 8, 15, 16, 31, 32, 255, 256, 1023, 1024, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x8000_0000][k - 1]),
                k => {
                    let mut z = [0; 16];
                    z[k - 18] = 0x80;
                    Ex::new(z, 0)
                }
            };
            if ids.contains(&(to.g, to.n)) {
                return Ok(());
            }
            pk.remap(&|e| if (e.g, e.n) == (g, n) { to } else { e });
            let f = ch.choose("form", 4) as u8;
            let o = Opts { ex_min: f, ..Opts::default() };
            check_bytes(cx, &pk.encode(&o).0, &expect_section(ir, NAME))
        },
    ));
    v.push(super::scale::space("C03", t));
    v
}

fn crit_ex(b: &Base, i: usize) -> bool {
    let (e, tag) = b.exs[i];
    let last = b.exs.iter().rposition(|c| c.1 == "elem_id").unwrap();
    // the storage index and manifest are found without their element ids
    (i >= b.skip.1 || i < b.nsi && tag != "elem_id" || tag == "root_id" || tag == "root_cell") && !e.is_nil() && e != spread(xo(900_000)) && i != last && IDS.contains(&tag)
}

pub fn rename(ir: &mut StoreIR, from: Ex, to: Ex) {
    fn ps(v: &mut [Prop], from: Ex, to: Ex) {
        for p in v {
            match &mut p.v {
                PV::Oid(e) if *e == from => *e = to,
                PV::Oids(v) => v.iter_mut().for_each(|e| {
                    if *e == from {
                        *e = to
                    }
                }),
                PV::Vals(_, s) => s.iter_mut().for_each(|s| ps(s, from, to)),
                PV::Set(s) => ps(s, from, to),
                _ => {}
            }
        }
    }
    for s in &mut ir.spaces {
        for r in &mut s.revs {
            for (_, o) in &mut r.roots {
                if *o == from {
                    *o = to
                }
            }
            for g in &mut r.groups {
                for o in &mut g.objs {
                    if o.id == from {
                        o.id = to
                    }
                    ps(&mut o.props, from, to);
                }
            }
        }
    }
}

impl Base {
    /// (header bytes, length, 32-bit form permitted) of every stream object in order of completion
    pub fn pkg_headers(&self) -> Vec<(Vec<u8>, usize, bool)> {
        HEADERS.iter().map(|h| (h.0.clone(), h.1, h.2)).collect()
    }
    pub fn pkg_header(&self, n: usize) -> (Vec<u8>, usize) {
        (HEADERS[n].0.clone(), HEADERS[n].1)
    }
}
static HEADERS: LazyLock<Vec<(Vec<u8>, usize, bool, &'static str)>> = LazyLock::new(|| {
    let (bytes, marks) = BASE.pkg.encode(&Opts { marks: true, ..Default::default() });
    marks
        .iter()
        .filter(|m| m.k == K::Hdr)
        .map(|m| {
            let h = &bytes[m.off..m.off + m.len];
            let (len, wide) = if m.len == 2 {
                ((u16::from_le_bytes([h[0], h[1]]) >> 9) as usize, false)
            } else {
                ((u32::from_le_bytes([h[0], h[1], h[2], h[3]]) >> 17) as usize, true)
            };
            let w = wide
                || ["decls", "decl", "decl_blob", "gdata", "gobj", "gexcl", "gblob", "blob", "fragment", "meta", "meta_entry"]
                    .contains(&m.tag);
            (h.to_vec(), len, w, m.tag)
        })
        .collect()
});
fn header_index(_b: &Base, tag: &str) -> usize {
    HEADERS.iter().rposition(|h| h.3 == tag).unwrap()
}

fn serial_store() -> StoreIR {
    let mut b = B::new();
    let t = b.para("the page");
    let o = b.wrap(&[t]);
    let mut ir = section1(b, &[o], None);
    let mut b = B::at(500);
    let t = b.para("the decoy");
    let o = b.wrap(&[t]);
    let (sp, _) = page_space(3, b, &[o], None);
    ir.spaces.push(sp);
    ir
}
