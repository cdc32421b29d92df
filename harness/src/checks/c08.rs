//! Property streams: unknown properties, order and optional streams never matter.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::tree::*;
use crate::util::*;
use std::sync::Arc;

fn seq(v: Vec<PV>) -> Vec<Prop> {
    v.into_iter().enumerate().map(|(i, v)| Prop::new(0x7100 + i as u32, v)).collect()
}
/// unknown values of every storage type
pub fn kinds() -> Vec<PV> {
    let c = cell(77);
    let a = xo(1);
    vec![
        PV::Empty,
        PV::Bool(false),
        PV::Bool(true),
        PV::U8(0xa5),
        PV::U16(0xa5b6),
        PV::U32(0x0102_0304),
        PV::U64(u64::MAX - 7),
        PV::Vec(vec![]),
        PV::Vec(vec![1]),
        PV::Vec(vec![0xff; 7]),
        PV::Vec((0..200).collect()),
        PV::Oid(a),
        PV::Oids(vec![]),
        PV::Oids(vec![a, a, xo(2)]),
        PV::Osid(c),
        PV::Osids(vec![c, c]),
        PV::Osids(vec![]),
        PV::Ctx(ctx0()),
        PV::Ctxs(vec![ctx0(); 2]),
        PV::Vals(VALS, vec![]),
        PV::Vals(0, vec![vec![]]),
        PV::Vals(VALS, vec![seq(vec![PV::U8(1), PV::Vec(vec![9; 3])]), vec![], seq(vec![PV::U16(7), PV::Oid(a)])]),
        PV::Set(vec![]),
        PV::Set(seq(vec![PV::U8(1), PV::U64(2), PV::Bool(true), PV::Vec(vec![4, 4])])),
        PV::Set(seq(vec![PV::Set(seq(vec![PV::Vals(VALS, vec![seq(vec![PV::U16(3)])]), PV::U8(1)])), PV::Oids(vec![a])])),
    ]
}
/// positions of all objects
pub fn all(ir: &StoreIR) -> Vec<(usize, Ex)> {
    let mut v = vec![];
    for (i, s) in ir.spaces.iter().enumerate() {
        for r in &s.revs {
            for g in &r.groups {
                for o in &g.objs {
                    if !v.contains(&(i, o.id)) {
                        v.push((i, o.id));
                    }
                }
            }
        }
    }
    v
}
/// every property list of a store: object, then nested path (property, set)
pub type Path = (usize, Ex, Vec<(usize, usize)>);
pub fn lists(ir: &StoreIR) -> Vec<Path> {
    fn go(p: &Path, ps: &[Prop], out: &mut Vec<Path>) {
        out.push(p.clone());
        for (i, q) in ps.iter().enumerate() {
            match &q.v {
                PV::Vals(_, sets) => {
                    for (k, s) in sets.iter().enumerate() {
                        let mut x = p.clone();
                        x.2.push((i, k));
                        go(&x, s, out);
                    }
                }
                PV::Set(s) => {
                    let mut x = p.clone();
                    x.2.push((i, 0));
                    go(&x, s, out);
                }
                _ => {}
            }
        }
    }
    let mut out = vec![];
    let mut ir = ir.clone();
    for (i, id) in all(&ir.clone()) {
        let ps = ir.obj(i, id).props.clone();
        go(&(i, id, vec![]), &ps, &mut out);
    }
    out
}
pub fn list<'a>(ir: &'a mut StoreIR, p: &Path) -> &'a mut Vec<Prop> {
    let mut v = &mut ir.obj(p.0, p.1).props;
    for (i, k) in &p.2 {
        v = match &mut v[*i].v {
            PV::Vals(_, s) => &mut s[*k],
            PV::Set(s) => s,
            _ => unreachable!(),
        };
    }
    v
}
/// the rich page in a single revision (so that every object is the visible one)
pub fn rich1() -> StoreIR {
    let mut ir = rich();
    let old = ir.spaces[1].revs.pop().unwrap();
    let r = &mut ir.spaces[1].revs[0];
    r.base = Ex::NIL;
    for o in &old.groups[0].objs {
        if !r.groups[0].objs.iter().any(|x| x.id == o.id) {
            r.groups[0].objs.push(o.clone());
        }
    }
    ir
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let base = Arc::new(rich1());
    let want = Arc::new(expect_section(&base, NAME));
    let ls = Arc::new(lists(&base));
    let mut v = vec![];
    v.push(super::real::streams(t == Tier::Thorough));
    let same = |base: &Arc<StoreIR>, want: &Arc<XR<T>>| (base.clone(), want.clone());

    let (b, w) = same(&base, &want);
    let l = ls.clone();
    v.push(Space::new(
        "unknown-anywhere",
        "one unknown property of each of 25 storage shapes at every position of every property list (nested lists included) of a section using every object kind",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let pl = ch.pick("list", &l);
            let k = ch.pick("kind", &kinds()).clone();
            let ps = list(&mut ir, pl);
            let at = ch.choose("position", ps.len() + 1);
            ps.insert(at, Prop::new(0x7000, k));
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &w)
        },
    ));
    let (b, w) = same(&base, &want);
    let l = ls.clone();
    let n = if deep { 3 } else { 2 };
    v.push(Space::new(
        "unknown-sequences",
        format!("every sequence of {n} unknown properties (25 shapes) in front of every property list of one object of each kind"),
        move |ch, cx| {
            let mut ir = (*b).clone();
            // one object per kind
            let mut seen = vec![];
            let mut pick = vec![];
            for p in l.iter() {
                let key = (ir.obj(p.0, p.1).jcid, p.2.len());
                if !seen.contains(&key) {
                    seen.push(key);
                    pick.push(p.clone());
                }
            }
            let pl = ch.pick("list", &pick).clone();
            let ks = kinds();
            let mut v = vec![];
            for i in 0..n {
                v.push(Prop::new(0x7000 + i as u32, ch.pick("kind", &ks).clone()));
            }
            let ps = list(&mut ir, &pl);
            v.append(ps);
            *ps = v;
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &w)
        },
    ));
    let (b, w) = same(&base, &want);
    v.push(Space::new(
        "long-values",
        "an unknown byte array of every length 0..=300 and around 2^8..2^16, a list of 0..=70 sets, 0..=300 unknown references or 0..=300 unknown properties of rotating types, in front of a page's and a paragraph's properties",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let host = if ch.flag("paragraph") {
                let o = ir.spaces[1].revs[0].groups[0].objs.iter().find(|o| o.jcid == jc::RichTextNode && o.props.len() > 5).unwrap();
                o.id
            } else {
                xo(PAGE)
            };
            let ps = &mut ir.obj(1, host).props;
            match ch.choose("what", 4) {
                0 => {
                    let k = ch.choose("length", 301 + 15);
                    let n = if k <= 300 { k } else { [511, 512, 513, 1023, 1024, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000][k - 301] };
                    ps.insert(0, Prop::new(0x7000, PV::Vec(vec![0xAB; n])));
                }
                1 => {
                    let n = ch.choose("sets", 71);
                    let sets = (0..n).map(|i| seq(kinds()[i % 25..(i % 25 + 2).min(25)].to_vec())).collect();
                    ps.insert(0, Prop::new(0x7000, PV::Vals(VALS, sets)));
                }
                2 => {
                    let n = ch.choose("references", 301);
                    ps.insert(0, Prop::new(0x7000, PV::Oids(vec![xo(1); n])));
                }
                _ => {
                    let n = ch.choose("properties", 301);
                    let ks = kinds();
                    for i in 0..n {
                        ps.insert(0, Prop::new(0x8000 + i as u32, ks[i % 25].clone()));
                    }
                }
            }
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &w)
        },
    ));
    let (b, w) = same(&base, &want);
    let l = ls.clone();
    let maxp = if deep { 7 } else { 6 };
    v.push(Space::new(
        "orders",
        format!("the stored order of each property list: every permutation for up to {maxp} properties, every pair exchanged, every property moved to every place and the reversed list for longer ones"),
        move |ch, cx| {
            let mut ir = (*b).clone();
            let pl = ch.pick("list", &l);
            let ps = list(&mut ir, pl);
            let n = ps.len();
            if n <= maxp {
                let o = ch.perm("order", n);
                *ps = o.into_iter().map(|i| ps[i].clone()).collect();
            } else {
                match ch.choose("how", 3) {
                    0 => {
                        let i = ch.choose("from", n);
                        let j = ch.choose("to", n);
                        let x = ps.remove(i);
                        ps.insert(j, x);
                    }
                    1 => {
                        let i = ch.choose("a", n);
                        let j = ch.choose("b", n);
                        ps.swap(i, j);
                    }
                    _ => {
                        ps.reverse();
                        let k = ch.choose("rotate", n);
                        ps.rotate_left(k);
                    }
                }
            }
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &w)
        },
    ));
    let (b, w) = same(&base, &want);
    let l = ls.clone();
    v.push(Space::new(
        "neighbouring-ids",
        "an unknown property whose identifier differs from a stored one in any single bit (26 bits), with a different value of the same type, in front of and behind it, for every property of every list",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let pl = ch.pick("list", &l);
            let ps = list(&mut ir, pl);
            if ps.is_empty() {
                return Ok(());
            }
            let i = ch.choose("property", ps.len());
            let bit = ch.choose("bit", 26);
            let id = ps[i].id ^ 1 << bit;
            if ps.iter().any(|q| q.id == id) {
                return Ok(());
            }
            let val = match &ps[i].v {
                PV::Bool(b) => PV::Bool(!b),
                PV::U8(b) => PV::U8(b ^ 1),
                PV::U16(b) => PV::U16(b ^ 1),
                PV::U32(b) => PV::U32(b ^ 1),
                PV::U64(b) => PV::U64(b ^ 1),
                PV::Vec(b) => PV::Vec(b.iter().map(|x| x ^ 1).collect()),
                PV::Oid(_) => PV::Oid(xo(999_999)),
                PV::Oids(v) => PV::Oids(vec![xo(999_999); v.len() + 1]),
                v => v.clone(),
            };
            let at = if ch.flag("behind") { i + 1 } else { i };
            ps.insert(at, Prop::new(id, val));
            // the neighbour may itself be a property that is read
            let known = expect_section(&ir, NAME);
            let _ = &w;
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &known)
        },
    ));
    let (b, w) = same(&base, &want);
    v.push(Space::new(
        "streams",
        "each object on its own or all objects with the optional object-space and context streams present although empty, under 4 compact-id schemes",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let objs = all(&ir);
            let k = ch.choose("object", objs.len() + 1);
            let s = ch.choose("streams", 3);
            let cid = *ch.pick("cid", &[Cid::Dedup, Cid::Unique, Cid::Collide, Cid::Mirror]);
            let oo = ObjOpts { cid, osid_stream: s >= 1, ctx_stream: s >= 2, nil: 0 };
            if k == objs.len() {
                return check_bytes(cx, &ir.build(&BuildOpts { oo, ..Default::default() }).bytes(), &w);
            }
            // one object in a group of its own, encoded with the options
            let (si, id) = objs[k];
            let sp = &mut ir.spaces[si];
            let space = sp.cell.1;
            let mut gone = None;
            for g in &mut sp.revs[0].groups {
                if let Some(i) = g.objs.iter().position(|o| o.id == id) {
                    gone = Some(g.objs.remove(i));
                }
            }
            let gid = eid(888_888);
            sp.revs[0].groups.push(GroupIR { id: gid, objs: vec![] });
            let mut pk = ir.build(&BuildOpts::default());
            let bo = BuildOpts { oo, ..Default::default() };
            pk.find_mut(|e| e.id == gid).unwrap().body = group_body(&[gone.unwrap()], &space, &bo);
            check_bytes(cx, &pk.bytes(), &w)
        },
    ));
    let (b, w) = same(&base, &want);
    v.push(Space::new(
        "ignored-bits",
        "the unused top bit of every non-boolean property identifier and each of the 6 reserved bits of every reference stream header set, one at a time",
        move |ch, cx| {
            let bo = BuildOpts { marks: true, oo: ObjOpts { cid: Cid::Dedup, osid_stream: true, ctx_stream: true, nil: 0 }, ..Default::default() };
            let (mut bytes, marks) = b.build(&bo).encode(&Opts { marks: true, ..Opts::default() });
            let ms: Vec<&Mark> = marks.iter().filter(|m| m.k == K::PropId || m.k == K::PropHdr).collect();
            let m = ms[ch.choose("field", ms.len())];
            let mut x = u32::from_le_bytes(bytes[m.off..m.off + 4].try_into().unwrap());
            if m.k == K::PropHdr {
                x |= 1 << (24 + ch.choose("bit", 6));
            } else if m.tag == "prop_id" && x >> 26 & 31 != 2 {
                x |= 1 << 31;
            }
            bytes[m.off..m.off + 4].copy_from_slice(&x.to_le_bytes());
            check_bytes(cx, &bytes, &w)
        },
    ));
    let (b, _) = same(&base, &want);
    let l = ls.clone();
    v.push(Space::new(
        "undefined-types",
        "an unknown property of each of the 17 undefined storage types in front of, in the middle of or behind every property list: it has no known size, so the file is refused",
        move |ch, cx| {
            let mut ir = (*b).clone();
            let ty = *ch.pick("type", &[0u32, 14, 15, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]);
            let pl = ch.pick("list", &l);
            let ps = list(&mut ir, pl);
            let at = [0, ps.len() / 2, ps.len()][ch.choose("position", 3)];
            ps.insert(at, Prop::new(0x7000, PV::Raw(ty, vec![])));
            check_reject(cx, &ir.build(&BuildOpts::default()).bytes())
        },
    ));
    // probed values between unknown neighbours
    v.push(Space::new(
        "probed-values",
        "a probed 1-, 2-, 4-, 8-byte, string or reference value at boundary values between one unknown property of each shape before and after it",
        move |ch, cx| {
            let ks = kinds();
            let pre = ch.pick("before", &ks).clone();
            let post = ch.pick("after", &ks).clone();
            let mut b = B::new();
            let st = b.style();
            let t = b.text("x", st);
            let e = b.element(3, &[t], &[]);
            let o = b.outline(&[e]);
            let (host, id, val) = match ch.choose("probe", 6) {
                0 => (e, p::OutlineElementChildLevel, PV::U8(*ch.pick("value", &[0, 1, 127, 128, 255]))),
                1 => (st, p::FontSize, PV::U16(*ch.pick("value", &[0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff]))),
                2 => (o, p::LayoutMaxWidth, PV::U32(*ch.pick("value", &[0, 1, 0xff, 0xff00, 0x3f80_0000, 0x7fff_ffff, 0x8000_0000, 0xbf80_0000]))),
                3 => (st, p::Font, PV::s(ch.pick("value", &["", "a", "Calibri", "\u{1F600}"]))),
                4 => (st, p::Bold, PV::Bool(ch.flag("value"))),
                _ => (e, p::ContentChildNodes, PV::Oids(vec![t; ch.choose("value", 3)])),
            };
            let ob = b.o(host);
            ob.unset(id);
            let at = ob.props.len() / 2;
            ob.props.splice(at..at, [Prop::new(0x7000, pre), Prop::new(id, val), Prop::new(0x7001, post)]);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(super::scale::space("C08", t));
    v
}
