//! Spaces that start from the repository's sample files: the bytes are decoded
//! independently, so that the reference interpreter predicts the result of real
//! files and of systematic variations of them.
use crate::dec::*;
use crate::enc::*;
use crate::explore::*;
use crate::model::*;
use crate::rich::VALS;
use crate::store::*;
use crate::util::*;
use super::c08::{self, Path};
use std::collections::{HashMap, HashSet};
use std::sync::LazyLock;

/// judge `bytes`, an encoding of `ir`
pub fn expect(cx: &mut Cx, toc: bool, ir: &StoreIR, bytes: &[u8]) -> R {
    if toc {
        return super::c05::check_toc_bytes(cx, ir, bytes);
    }
    let exp = expect_section(ir, NAME);
    check_bytes(cx, bytes, &exp)
}
fn smp(cx: &Cx, s: &Sample) {
    if cx.verbose {
        eprintln!("sample: {}", s.name);
    }
}

/// the files as they are
pub fn plain() -> Space {
    Space::new("sample-files", format!("all {} sample files of the repository, decoded independently", SAMPLES.len()), move |ch, cx| {
        if SAMPLES.is_empty() {
            return Ok(());
        }
        let s = ch.pick("sample", &SAMPLES);
        smp(cx, s);
        expect(cx, s.toc, &s.ir, &s.bytes)
    })
}

/// the layout and encoding freedoms of the format
pub fn encodings(deep: bool) -> Space {
    Space::new(
        "sample-encodings",
        "every sample file encoded again: 5 container layouts x 16- and 32-bit and long stream object headers x least widths of compact integers (8) x forms of extended GUIDs (4); quick: one of the last three at a time",
        move |ch, cx| {
            if SAMPLES.is_empty() {
                return Ok(());
            }
            let s = ch.pick("sample", &SAMPLES);
            smp(cx, s);
            let mut p = s.pkg.clone();
            p.layout = *ch.pick("layout", &[Layout::Package, Layout::RevLegacy, Layout::RevFull { gap: 0 }, Layout::RevFull { gap: 7 }, Layout::RevFull { gap: 4096 }]);
            let mut o = Opts::default();
            let heads = |o: &mut Opts, k: usize| {
                o.hdr32 = k >= 1;
                o.hdr32_long = k >= 2;
            };
            const W: [u8; 8] = [0, 2, 3, 4, 5, 6, 7, 9];
            if deep {
                heads(&mut o, ch.choose("headers", 3));
                o.cu_min = *ch.pick("integers", &W);
                o.ex_min = ch.choose("identifiers", 4) as u8;
            } else {
                match ch.choose("variation", 13) {
                    k @ 0..3 => heads(&mut o, k),
                    k @ 3..10 => o.cu_min = W[k - 2],
                    k => o.ex_min = (k - 9) as u8,
                }
            }
            expect(cx, s.toc, &s.ir, &p.encode(&o).0)
        },
    )
}

/// data elements and storage index entries in another order, other identifiers
pub fn orders(deep: bool) -> Space {
    Space::new(
        "sample-orders",
        "every sample file with its data elements rotated by every amount (large files: 40; thorough 400), reversed, or the storage index reversed or rotated, with and without renamed identifiers",
        move |ch, cx| {
            if SAMPLES.is_empty() {
                return Ok(());
            }
            let s = ch.pick("sample", &SAMPLES);
            smp(cx, s);
            let mut p = s.pkg.clone();
            let n = p.elems.len();
            let m = n.min(if deep { 400 } else { 40 });
            let k = ch.choose("order", m + 3);
            if k < m {
                p.elems.rotate_left(k * n / m);
            } else if k == m {
                p.elems.reverse();
            }
            let id = p.storage_index;
            if k > m {
                let e = p.find_mut(|e| e.id == id).unwrap();
                if let Body::StorageIndex(v) = &mut e.body {
                    if k == m + 1 { v.reverse() } else { v.rotate_left(1) }
                }
            }
            if ch.flag("renamed") {
                p.remap(&|e| {
                    if e.is_nil() || [C.hdr_root, C.data_root, C.role].contains(&e.g) {
                        return e;
                    }
                    let mut g = e.g;
                    g.rotate_left(3);
                    Ex::new(g, e.n ^ 0x12_3456)
                });
            }
            let b = p.bytes();
            expect(cx, s.toc, &s.ir, &b)
        },
    )
}


// ---------------------------------------------------------------- single edits

/// A property list of a sample: the sample, the list, its object's type.
pub struct At {
    pub s: usize,
    pub path: Path,
    pub jcid: u32,
    /// how many lists of the same shape come before it
    pub nth: usize,
}
/// every property list of every sample
pub static LISTS: LazyLock<Vec<At>> = LazyLock::new(|| {
    let mut seen: HashMap<(u32, usize, Vec<(u32, u32)>), usize> = HashMap::new();
    let mut v = vec![];
    for (s, smp) in SAMPLES.iter().enumerate() {
        let mut ir = smp.ir.clone();
        for path in c08::lists(&smp.ir) {
            let jcid = ir.obj(path.0, path.1).jcid;
            let mut sig: Vec<_> = c08::list(&mut ir, &path).iter().map(|p| (p.id, p.v.ty())).collect();
            sig.sort();
            let n = seen.entry((jcid, path.2.len(), sig)).or_default();
            v.push(At { s, path, jcid, nth: *n });
            *n += 1;
        }
    }
    v
});
/// the lists of the objects of the given types (all if empty), up to `max` of each shape
pub fn lists(jcids: &[u32], max: usize) -> Vec<&'static At> {
    LISTS.iter().filter(|a| a.nth < max && (jcids.is_empty() || jcids.contains(&a.jcid))).collect()
}
/// other values a property may be given
fn values(v: &PV) -> Vec<PV> {
    let mut o = vec![];
    match v {
        PV::Bool(b) => o.push(PV::Bool(!b)),
        PV::U8(x) => o.extend([0, 1, 2, 3, 5, 15, 16, 127, 128, 255, x.wrapping_add(1)].map(PV::U8)),
        PV::U16(x) => o.extend([0, 1, 2, 99, 100, 105, 106, 200, 0x7fff, 0x8000, 0xffff, x.wrapping_add(1)].map(PV::U16)),
        PV::U32(x) => o.extend(
            [0, 1, 2, 5, 9, 10, 33, 34, 0xff, 0x100, 0xffff, 0x00ff_ffff, 0x3f80_0000, 0x7fff_ffff, 0x8000_0000, 0x9000_0000, 0xff00_0000, 0xffff_ffff, x.wrapping_add(1)]
                .map(PV::U32),
        ),
        PV::U64(x) => o.extend([0, 1, 1 << 63, u64::MAX, x.wrapping_add(1)].map(PV::U64)),
        PV::Vec(b) => {
            o.push(PV::Vec(vec![]));
            o.push(PV::Vec(vec![0]));
            o.push(PV::Vec(vec![0, 0]));
            o.push(PV::Vec(vec![0xff; 4]));
            for k in [1, 2, 4] {
                if b.len() > k {
                    o.push(PV::Vec(b[..b.len() - k].to_vec()));
                    o.push(PV::Vec(b[k..].to_vec()));
                }
            }
            let mut x = b.clone();
            x.extend([1, 0]);
            o.push(PV::Vec(x));
            let mut x = b.clone();
            x.reverse();
            o.push(PV::Vec(x));
        }
        PV::Oid(_) => o.push(PV::Oid(Ex::NIL)),
        PV::Oids(r) => {
            o.push(PV::Oids(vec![]));
            if r.len() > 1 {
                o.push(PV::Oids(r.iter().rev().copied().collect()));
                o.push(PV::Oids(r[1..].to_vec()));
                o.push(PV::Oids(r[..r.len() - 1].to_vec()));
            }
            o.push(PV::Oids(r.iter().chain(r).copied().collect()));
            o.push(PV::Oids(r.iter().chain(&[Ex::NIL]).copied().collect()));
            o.push(PV::Oids([Ex::NIL].iter().chain(r).copied().collect()));
        }
        PV::Osids(r) => {
            o.push(PV::Osids(vec![]));
            o.push(PV::Osids(r.iter().rev().copied().collect()));
            o.push(PV::Osids(r.iter().chain(r).copied().collect()));
        }
        PV::Vals(id, sets) => {
            o.push(PV::Vals(*id, vec![]));
            o.push(PV::Vals(*id, sets.iter().rev().cloned().collect()));
            o.push(PV::Vals(*id, sets.iter().chain(sets).cloned().collect()));
            o.push(PV::Vals(*id, sets[..sets.len().saturating_sub(1)].to_vec()));
            o.push(PV::Vals(*id, vec![vec![]; sets.len()]));
        }
        _ => {}
    }
    o.retain(|x| x != v);
    o
}
fn retyped(v: &PV) -> Vec<PV> {
    let mut o = vec![
        PV::Empty,
        PV::Bool(true),
        PV::U8(1),
        PV::U16(1),
        PV::U32(1),
        PV::U64(1),
        PV::Vec(vec![1, 0, 0, 0]),
        PV::Oid(Ex::NIL),
        PV::Oids(vec![]),
        PV::Osids(vec![]),
        PV::Vals(VALS, vec![]),
        PV::Set(vec![]),
    ];
    o.retain(|x| x.ty() != v.ty());
    o
}
/// every single change of a property of the objects of the given types
pub fn edits(what: &str, jcids: &'static [u32], deep: bool) -> Space {
    let k = if deep { 40 } else { 2 };
    let tbl: Vec<(&'static At, usize)> = lists(jcids, k)
        .into_iter()
        .flat_map(|a| {
            let mut ir = SAMPLES[a.s].ir.clone();
            let n = c08::list(&mut ir, &a.path).len();
            (0..n).map(move |i| (a, i))
        })
        .collect();
    Space::new(
        format!("sample-edits-{what}"),
        format!(
            "sample files, the first {k} property sets of each shape of {what} objects ({} properties): each property removed, moved to the front or the end, given boundary values (up to 20), truncated, repeated or reversed, or another storage type (11)",
            tbl.len()
        ),
        move |ch, cx| {
            if tbl.is_empty() {
                return Ok(());
            }
            let (a, i) = *ch.pick("property", &tbl);
            let s = &SAMPLES[a.s];
            smp(cx, s);
            let mut ir = s.small.clone();
            let l = c08::list(&mut ir, &a.path);
            if cx.verbose {
                eprintln!("object {:x} {:?}: {:x?}", a.jcid, a.path, l[i]);
            }
            match ch.choose("edit", 5) {
                0 => {
                    l.remove(i);
                }
                1 => l[..=i].rotate_right(1),
                2 => l[i..].rotate_left(1),
                3 => {
                    let v = values(&l[i].v);
                    if v.is_empty() {
                        return Ok(());
                    }
                    l[i].v = ch.pick("value", &v).clone();
                }
                _ => {
                    let v = retyped(&l[i].v);
                    l[i].v = ch.pick("type", &v).clone();
                }
            }
            if cx.verbose {
                eprintln!("becomes {:x?}", l.get(i));
            }
            let b = ir.build(&BuildOpts::default()).bytes();
            expect(cx, s.toc, &ir, &b)
        },
    )
}

/// revision histories of the samples, changed object by object
pub fn histories(deep: bool) -> Space {
    let k = if deep { 60 } else { 2 };
    let objs: Vec<&'static At> = LISTS.iter().filter(|a| a.nth < k && a.path.2.is_empty()).collect();
    let revs: Vec<(usize, usize, usize)> = SAMPLES
        .iter()
        .enumerate()
        .flat_map(|(s, x)| x.small.spaces.iter().enumerate().flat_map(move |(i, sp)| (0..sp.revs.len()).map(move |r| (s, i, r))))
        .collect();
    Space::new(
        "sample-histories",
        format!(
            "sample files: {} objects given a newer version, a conflicting oldest version, moved into a new oldest or newest revision, or moved one revision up or down; each of {} revisions dropped, merged with its base or split in two",
            objs.len(),
            revs.len()
        ),
        move |ch, cx| {
            if objs.is_empty() || revs.is_empty() {
                return Ok(());
            }
            let fresh = |base: Ex, objs: Vec<Obj>, n: u32| RevIR {
                rev: Ex::new([0x71; 16], n),
                manifest: Ex::new([0x72; 16], n),
                base,
                groups: vec![GroupIR { id: Ex::new([0x73; 16], n), objs }],
                roots: vec![],
            };
            let s;
            let mut ir;
            if ch.flag("revision") {
                let (si, i, r) = *ch.pick("which", &revs);
                s = &SAMPLES[si];
                ir = s.small.clone();
                let v = &mut ir.spaces[i].revs;
                match ch.choose("change", 3) {
                    0 => {
                        let base = v[r].base;
                        v.remove(r);
                        if r > 0 {
                            v[r - 1].base = base;
                        }
                    }
                    1 => {
                        if r + 1 < v.len() {
                            let old = v.remove(r + 1);
                            v[r].base = old.base;
                            let have: HashSet<Ex> = v[r].groups.iter().flat_map(|g| g.objs.iter().map(|o| o.id)).collect();
                            for mut g in old.groups {
                                g.objs.retain(|o| !have.contains(&o.id));
                                v[r].groups.push(g);
                            }
                            for x in old.roots {
                                if !v[r].roots.iter().any(|y| y.0 == x.0) {
                                    v[r].roots.push(x);
                                }
                            }
                        }
                    }
                    _ => {
                        let base = v[r].base;
                        let mut low = fresh(base, vec![], 1);
                        low.groups.clear();
                        for (k, g) in v[r].groups.iter_mut().enumerate() {
                            let h = g.objs.len() / 2;
                            low.groups.push(GroupIR { id: Ex::new([0x73; 16], 10 + k as u32), objs: g.objs.split_off(h) });
                        }
                        let half = v[r].roots.len() / 2;
                        low.roots = v[r].roots.split_off(half);
                        v[r].base = low.rev;
                        v.insert(r + 1, low);
                    }
                }
            } else {
                let a = *ch.pick("object", &objs);
                s = &SAMPLES[a.s];
                ir = s.small.clone();
                let (i, id) = (a.path.0, a.path.1);
                let mut o = ir.obj(i, id).clone();
                let v = &mut ir.spaces[i].revs;
                let at = v.iter().position(|r| r.groups.iter().any(|g| g.objs.iter().any(|x| x.id == id))).unwrap();
                let mut other = o.clone();
                match ch.choose("other version", 3) {
                    0 => other.props.clear(),
                    1 => {
                        other.props.pop();
                    }
                    _ => other.jcid ^= 1,
                }
                let take = |v: &mut Vec<RevIR>| v[at].groups.iter_mut().for_each(|g| g.objs.retain(|x| x.id != id));
                match ch.choose("change", 6) {
                    0 => {
                        let r = fresh(v[0].rev, vec![other], 1);
                        v.insert(0, r);
                    }
                    1 => {
                        let r = fresh(Ex::NIL, vec![other], 1);
                        v.last_mut().unwrap().base = r.rev;
                        v.push(r);
                    }
                    2 => {
                        take(v);
                        let r = fresh(Ex::NIL, vec![o], 1);
                        v.last_mut().unwrap().base = r.rev;
                        v.push(r);
                    }
                    3 => {
                        take(v);
                        o = other;
                        let r = fresh(v[0].rev, vec![o], 1);
                        v.insert(0, r);
                    }
                    4 if at > 0 => {
                        let g = GroupIR { id: Ex::new([0x73; 16], 2), objs: vec![other] };
                        v[at - 1].groups.push(g);
                    }
                    _ => {
                        take(v);
                        if at + 1 < v.len() {
                            v[at + 1].groups.iter_mut().for_each(|g| g.objs.retain(|x| x.id != id));
                            let g = GroupIR { id: Ex::new([0x73; 16], 2), objs: vec![other] };
                            v[at + 1].groups.push(g);
                        }
                    }
                }
            }
            smp(cx, s);
            let b = ir.build(&BuildOpts::default()).bytes();
            expect(cx, s.toc, &ir, &b)
        },
    )
}

/// property sets reordered or extended by unknown properties
pub fn streams(deep: bool) -> Space {
    let k = if deep { 60 } else { 2 };
    let tbl = lists(&[], k);
    let kinds = c08::kinds();
    Space::new(
        "sample-streams",
        format!("sample files, the first {k} property sets of each shape ({}): reversed, rotated, or with one of {} unknown properties at the front, in the middle or at the end", tbl.len(), kinds.len()),
        move |ch, cx| {
            if tbl.is_empty() {
                return Ok(());
            }
            let a = *ch.pick("set", &tbl);
            let s = &SAMPLES[a.s];
            smp(cx, s);
            let mut ir = s.small.clone();
            let l = c08::list(&mut ir, &a.path);
            let n = l.len();
            match ch.choose("change", 2 + kinds.len()) {
                0 => l.reverse(),
                1 => {
                    if n > 0 {
                        l.rotate_left(1 + ch.choose("by", n));
                    }
                }
                q => {
                    let at = [0, n / 2, n][ch.choose("where", 3)];
                    l.insert(at, Prop::new(0x7abc, kinds[q - 2].clone()));
                }
            }
            let b = ir.build(&BuildOpts::default()).bytes();
            // the content is what it was before
            expect(cx, s.toc, &s.small, &b)
        },
    )
}

/// references retargeted, under each assignment of compact identifiers
pub fn references(deep: bool) -> Space {
    let k = if deep { 40 } else { 2 };
    let tbl: Vec<(&'static At, usize, usize)> = lists(&[], k)
        .into_iter()
        .flat_map(|a| {
            let mut ir = SAMPLES[a.s].small.clone();
            let v: Vec<(usize, usize)> = c08::list(&mut ir, &a.path)
                .iter()
                .enumerate()
                .flat_map(|(i, p)| {
                    let n = match &p.v {
                        PV::Oid(_) => 1,
                        PV::Oids(r) => r.len(),
                        PV::Osids(r) => r.len(),
                        _ => 0,
                    };
                    (0..n.min(4)).map(move |k| (i, k))
                })
                .collect();
            v.into_iter().map(move |(i, k)| (a, i, k))
        })
        .collect();
    Space::new(
        "sample-references",
        format!("sample files, {} references: kept, made nil, dangling, or pointed at one of 3 other targets of the same kind, the whole file written under 3 compact-id schemes", tbl.len()),
        move |ch, cx| {
            if tbl.is_empty() {
                return Ok(());
            }
            let (a, i, k) = *ch.pick("reference", &tbl);
            let s = &SAMPLES[a.s];
            smp(cx, s);
            let mut ir = s.small.clone();
            let cells: Vec<Cell> = ir.spaces[1..].iter().map(|x| x.cell).collect();
            let old = match &c08::list(&mut ir, &a.path)[i].v {
                PV::Oid(x) => Some(*x),
                PV::Oids(r) => Some(r[k]),
                _ => None,
            };
            let space = &ir.spaces[a.path.0];
            let all = || space.revs.iter().flat_map(|r| r.groups.iter()).flat_map(|g| g.objs.iter());
            let kind = old.and_then(|o| all().find(|x| x.id == o).map(|x| x.jcid));
            let mut near: Vec<Ex> = vec![];
            for o in all() {
                if Some(o.jcid) == kind && Some(o.id) != old && !near.contains(&o.id) {
                    near.push(o.id);
                }
            }
            let how = ch.choose("target", 6);
            let to = |x: &mut Ex| {
                *x = match how {
                    0 => *x,
                    1 => Ex::NIL,
                    2 => Ex::new([0x31; 16], 7),
                    h => near.get([0, near.len() / 2, near.len().saturating_sub(1)][h - 3]).copied().unwrap_or(*x),
                }
            };
            match &mut c08::list(&mut ir, &a.path)[i].v {
                PV::Oid(x) => to(x),
                PV::Oids(r) => to(&mut r[k]),
                PV::Osids(r) if !cells.is_empty() => {
                    r[k] = match how {
                        0 => r[k],
                        1 | 2 => Cell(Ex::new([0x31; 16], 7), Ex::new([0x32; 16], 7)),
                        h => cells[(h - 3) % cells.len()],
                    }
                }
                _ => {}
            }
            let cid = [Cid::Dedup, Cid::Unique, Cid::Collide][ch.choose("cid", 3)];
            let b = ir.build(&BuildOpts { oo: ObjOpts { cid, ..ObjOpts::default() }, ..BuildOpts::default() }).bytes();
            expect(cx, s.toc, &ir, &b)
        },
    )
}
