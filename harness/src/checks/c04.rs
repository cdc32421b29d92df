//! Package framing: violations are rejected, permitted variants read alike.
use super::c16::minis;
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::tree::*;
use crate::util::*;
use std::sync::LazyLock;

/// What may stand where a marker is expected: (start or end, type)
type Tok = (bool, u16);
const fn s(t: u16) -> Tok {
    (true, t)
}
const fn e(t: u16) -> Tok {
    (false, t)
}

/// The marker encoded at `off`, whatever its width.
fn tok(b: &[u8], off: usize) -> Option<Tok> {
    let at = |i: usize| b.get(off + i).copied().map(|x| x as u32);
    let b0 = at(0)?;
    Some(match b0 & 3 {
        0 => {
            let v = b0 | at(1)? << 8;
            (true, (v >> 3 & 0x3f) as u16)
        }
        2 => {
            let v = b0 | at(1)? << 8 | at(2)? << 16 | at(3)? << 24;
            (true, (v >> 3 & 0x3fff) as u16)
        }
        1 => (false, (b0 >> 2) as u16),
        _ => (false, ((b0 | at(1)? << 8) >> 2) as u16),
    })
}

struct Site {
    m: Mark,
    allowed: Vec<Tok>,
}
struct Base {
    name: String,
    toc: bool,
    bytes: Vec<u8>,
    sites: Vec<Site>,
    marks: Vec<Mark>,
    exp: XR<T>,
}

/// The grammar of the container: what may follow at every marker of the file.
fn sites(marks: &[Mark]) -> Vec<Site> {
    let mut ms: Vec<Mark> = marks.iter().filter(|m| matches!(m.k, K::Hdr | K::End)).copied().collect();
    ms.sort_by_key(|m| m.off);
    let si = vec![s(0x11), s(0x0e), s(0x0d), e(1)];
    let mut body = si.clone();
    let mut had_meta = false;
    ms.into_iter()
        .map(|m| {
            let allowed = match m.tag {
                "packaging" => vec![s(0x7a)],
                "package" => vec![s(0x15)],
                "element" => {
                    body = si.clone();
                    vec![s(1), e(0x15)]
                }
                "package_end" => vec![s(1), e(0x15)],
                "packaging_end" => vec![e(0x7a)],
                "si_manifest" | "si_cell" | "si_rev" => si.clone(),
                "storage_manifest" => {
                    body = vec![s(7), e(1)];
                    vec![s(0x0c)]
                }
                "manifest_root" => vec![s(7), e(1)],
                "cell_manifest" => {
                    body = vec![e(1)];
                    vec![s(0x0b)]
                }
                "rev_manifest" => {
                    body = vec![s(0x0a), s(0x19), e(1)];
                    vec![s(0x1a)]
                }
                "rev_root" | "rev_group" => body.clone(),
                "decls" => {
                    body = vec![e(1)];
                    had_meta = false;
                    vec![s(0x1d)]
                }
                "decl" | "decl_blob" | "decls_end" => vec![s(0x18), s(5), e(0x1d)],
                "meta" => {
                    had_meta = true;
                    vec![s(0x79), s(0x1e)]
                }
                "meta_entry" | "meta_end" => vec![s(0x78), e(0x79)],
                "gdata" => if had_meta { vec![s(0x1e)] } else { vec![s(0x79), s(0x1e)] },
                "gobj" | "gexcl" | "gblob" | "gdata_end" => vec![s(0x16), s(3), s(0x1c), e(0x1e)],
                "fragment" => {
                    body = vec![e(1)];
                    vec![s(0x6a)]
                }
                "blob" => {
                    body = vec![e(1)];
                    vec![s(2)]
                }
                "element_end" => body.clone(),
                t => unreachable!("{t}"),
            };
            Site { m, allowed }
        })
        .collect()
}
fn base(name: &str, ir: &StoreIR, layout: Layout, meta: bool, toc: bool) -> Base {
    let bo = BuildOpts { layout, meta, marks: true, ..Default::default() };
    let mut pk = ir.build(&bo);
    if meta {
        let f = Body::Fragment { id: eid(1), size: 4, off: 0, len: 4, data: vec![1, 2, 3, 4] };
        pk.elems.insert(1, Elem::new(Ex::new([0x78; 16], 4), f));
    }
    let (bytes, marks) = pk.encode(&Opts { marks: true, ..Default::default() });
    let exp = if toc { Ok(T::Null) } else { expect_section(ir, NAME) };
    Base { name: name.into(), toc, sites: sites(&marks), marks, bytes, exp }
}
fn small() -> StoreIR {
    let mut b = B::new();
    let t = b.para("x");
    let i = b.image(Some(vec![1, 2, 3]));
    let o = b.wrap(&[t, i]);
    section1(b, &[o], None)
}
static BASES: LazyLock<Vec<Base>> = LazyLock::new(|| {
    vec![
        base("small section", &small(), Layout::Package, true, false),
        base("small section in the full layout", &small(), Layout::RevFull { gap: 5 }, false, false),
        base("rich section", &rich(), Layout::Package, false, false),
        base("table of contents", &rich_toc(), Layout::Package, true, true),
    ]
});
fn reject(cx: &mut Cx, b: &Base, bytes: &[u8]) -> R {
    cx.mix(bytes);
    let got = if b.toc { parse_toc_bytes(cx, bytes)? } else { parse_buf(cx, bytes, NAME)? };
    judge(cx, &Err(X::Err), &got)
}
/// The file after an edit at `off`, where `allowed` may stand: whatever was
/// put there has to be rejected unless it may stand there.
fn edited(cx: &mut Cx, b: &Base, bytes: &[u8], off: usize, allowed: &[Tok]) -> R {
    match tok(bytes, off) {
        Some(t) if allowed.contains(&t) => {
            cx.count("no claim (a marker that may stand there)", 1);
            super::c01::run(cx, b.toc, bytes)
        }
        _ => reject(cx, b, bytes),
    }
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::encodings(t == Tier::Thorough));
    let nb = BASES.len();
    let pick = move |ch: &mut Ch| &BASES[ch.choose("file", nb)];

    v.push(Space::new(
        "base-files",
        "the files the other spaces damage, undamaged",
        move |ch, cx| {
            let b = pick(ch);
            if cx.verbose {
                eprintln!("{}: {} bytes, {} markers", b.name, b.bytes.len(), b.sites.len());
            }
            cx.mix(&b.bytes);
            if b.toc {
                return match parse_toc_bytes(cx, &b.bytes)? {
                    Ok(_) => Ok(()),
                    Err(e) => bad("rejected base", e),
                };
            }
            check_bytes(cx, &b.bytes, &b.exp)
        },
    ));
    v.push(Space::new(
        "marker-types",
        "every start and end marker of four files given every type (64 short types; 256 low and all single-bit long types) in every marker form (short and long start, short and long end)",
        move |ch, cx| {
            let b = pick(ch);
            let k = ch.choose("marker", b.sites.len());
            let st = &b.sites[k];
            let form = ch.choose("form", 4);
            let n = match form {
                0 | 1 => ch.choose("type", 64) as u32,
                _ => {
                    let x = ch.choose("type", 256 + 6) as u32;
                    if x < 256 { x } else { 1 << (x - 256 + 8) }
                }
            };
            let mut bytes = b.bytes.clone();
            let old = tok(&bytes, st.m.off).unwrap();
            // keep what the original carries besides its type
            let len_bits = match b.bytes[st.m.off] & 3 {
                0 => (b.bytes[st.m.off + 1] >> 1) as u32,
                2 => u16::from_le_bytes([b.bytes[st.m.off + 2], b.bytes[st.m.off + 3]]) as u32 >> 1,
                _ => 0,
            };
            let new: Vec<u8> = match form {
                0 => ((n << 3 | len_bits.min(127) << 9) as u16).to_le_bytes().to_vec(),
                1 => vec![(n << 2 | 1) as u8],
                2 => (2 | n << 3 | len_bits << 17).to_le_bytes().to_vec(),
                _ => ((n << 2 | 3) as u16).to_le_bytes().to_vec(),
            };
            if tok(&new, 0) == Some(old) {
                return Ok(());
            }
            bytes.splice(st.m.off..st.m.off + st.m.len, new);
            edited(cx, b, &bytes, st.m.off, &st.allowed)
        },
    ));
    v.push(Space::new(
        "marker-bytes",
        "every byte of every marker of four files replaced by every value, and every marker removed, doubled, or exchanged with the next one",
        move |ch, cx| {
            let b = pick(ch);
            let k = ch.choose("marker", b.sites.len());
            let st = &b.sites[k];
            let (o, l) = (st.m.off, st.m.len);
            let mut bytes = b.bytes.clone();
            match ch.choose("edit", 4) {
                0 => {
                    let i = ch.choose("byte", l);
                    bytes[o + i] = ch.choose("value", 256) as u8;
                    if bytes == b.bytes {
                        return Ok(());
                    }
                    edited(cx, b, &bytes, o, &st.allowed)
                }
                1 => {
                    bytes.drain(o..o + l);
                    edited(cx, b, &bytes, o, &st.allowed)
                }
                2 => {
                    let copy = bytes[o..o + l].to_vec();
                    bytes.splice(o..o, copy);
                    // an end marker is directly followed by the next marker
                    if st.m.k == K::End && k + 1 < b.sites.len() {
                        edited(cx, b, &bytes, o + l, &b.sites[k + 1].allowed)
                    } else {
                        super::c01::run(cx, b.toc, &bytes)
                    }
                }
                _ => {
                    if k + 1 >= b.sites.len() {
                        return Ok(());
                    }
                    let n = &b.sites[k + 1].m;
                    let (x, y) = (bytes[o..o + l].to_vec(), bytes[n.off..n.off + n.len].to_vec());
                    bytes.splice(n.off..n.off + n.len, x);
                    bytes.splice(o..o + l, y);
                    edited(cx, b, &bytes, o, &st.allowed)
                }
            }
        },
    ));
    let xs = if deep { 256 } else { 24 };
    v.push(Space::new(
        "inserted-bytes",
        format!("one surplus byte ({xs} values) before every marker of four files"),
        move |ch, cx| {
            let b = pick(ch);
            let k = ch.choose("marker", b.sites.len());
            let st = &b.sites[k];
            let x = ch.choose("value", xs);
            let x = if deep { x as u8 } else { [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x0c, 0x10, 0x20, 0x40, 0x55, 0x59, 0x5c, 0x75, 0x79, 0x7f, 0x80, 0xaa, 0xf0, 0xfe, 0xff][x] };
            let mut bytes = b.bytes.clone();
            bytes.insert(st.m.off, x);
            edited(cx, b, &bytes, st.m.off, &st.allowed)
        },
    ));
    v.push(Space::new(
        "cut-short",
        "four files cut off at every byte",
        move |ch, cx| {
            let b = pick(ch);
            let n = ch.choose("length", b.bytes.len());
            reject(cx, b, &b.bytes[..n])
        },
    ));
    v.push(Space::new(
        "fixed-fields",
        "every reserved byte and format version of four files given every byte value, every bit of the format identifier and of the store's schema changed",
        move |ch, cx| {
            let b = pick(ch);
            let fix: Vec<&Mark> = b
                .marks
                .iter()
                .filter(|m| m.k == K::Pad || m.k == K::Version || (m.k == K::FileGuid && m.tag == "file_format" && m.off == 48) || m.tag == "schema")
                .collect();
            let m = **ch.pick("field", &fix);
            let i = ch.choose("byte", m.len);
            let x = ch.choose("value", 256) as u8;
            let mut bytes = b.bytes.clone();
            if bytes[m.off + i] == x {
                return Ok(());
            }
            bytes[m.off + i] = x;
            if m.k == K::Version && u32::from_le_bytes(bytes[m.off..m.off + 4].try_into().unwrap()) == 0x2a
                || m.k == K::Version && u32::from_le_bytes(bytes[m.off..m.off + 4].try_into().unwrap()) == 0x1b
            {
                return check_bytes(cx, &bytes, &b.exp);
            }
            reject(cx, b, &bytes)
        },
    ));
    v.push(Space::new(
        "format-identifiers",
        "each of the two format identifiers, their byte-reversed and half-mixed forms, nil, and each with and without a legacy version, before a package",
        move |ch, cx| {
            let ir = small();
            let pk = ir.build(&BuildOpts::default());
            let mut bytes = pk.bytes();
            let mut f = *ch.pick("format", &[C.fmt_pkg, C.fmt_rev, [0; 16], [0xff; 16], C.filetype_one, C.cell_schema]);
            let twist = ch.choose("twist", 4);
            match twist {
                1 => f.reverse(),
                2 => f.swap(0, 3),
                3 => f[8..].copy_from_slice(&C.fmt_rev[8..]),
                _ => {}
            }
            let legacy = *ch.pick("legacy version", &[[0u8; 16], [9; 16], C.fmt_rev, C.fmt_pkg]);
            bytes[32..48].copy_from_slice(&legacy);
            bytes[48..64].copy_from_slice(&f);
            let ok = f == C.fmt_pkg || (f == C.fmt_rev && legacy != [0; 16]);
            let exp = if ok { expect_section(&ir, NAME) } else { Err(X::Err) };
            check_bytes(cx, &bytes, &exp)
        },
    ));
    v.push(Space::new(
        "file-identifiers",
        "every bit of the file type, file and legacy-version identifiers of the header and of the cell schema: they do not influence what is read",
        move |ch, cx| {
            let layout = *ch.pick("layout", &[Layout::Package, Layout::RevLegacy]);
            let ir = small();
            let (mut bytes, marks) = ir.build(&BuildOpts { layout, ..Default::default() }).encode(&Opts { marks: true, ..Default::default() });
            let at = match ch.choose("field", 3) {
                0 => 16,
                1 => 32,
                _ => marks.iter().find(|m| m.tag == "cell_schema").unwrap().off,
            };
            let bit = ch.choose("bit", 128);
            bytes[at + bit / 8] ^= 1 << (bit % 8);
            check_bytes(cx, &bytes, &expect_section(&ir, NAME))
        },
    ));
    v.push(Space::new(
        "transaction-log",
        "the full layout with 0..=40 bytes between header and package, the log located by every split of offset and length, and one located before the header's end, beyond the file's end or overflowing",
        move |ch, cx| {
            let gap = ch.choose("gap", 41) as u32;
            let ir = small();
            let (mut bytes, marks) = ir.build(&BuildOpts { layout: Layout::RevFull { gap }, ..Default::default() }).encode(&Opts { marks: true, ..Default::default() });
            let o = marks.iter().find(|m| m.tag == "transaction_log").unwrap().off;
            let end = o as u64 + 12 + gap as u64;
            let total = bytes.len() as u64;
            let (stp, cb, ok) = match ch.choose("how", 4) {
                0 => {
                    let cb = ch.choose("length", 60).min(end as usize) as u64;
                    (end - cb, cb, true)
                }
                1 => {
                    let short = 1 + ch.choose("short", 12) as u64;
                    let e = o as u64 + 12 - short;
                    (e, 0, false)
                }
                2 => {
                    let over = [0u64, 1, 63, 64, 1 << 31, (1 << 40) + 5][ch.choose("over", 6)];
                    // nothing, or less than a header, is left
                    (total - 64 + 1 + over, 0, false)
                }
                _ => {
                    let stp = [u64::MAX, u64::MAX - 5, 1 << 63, (1 << 63) - 1][ch.choose("offset", 4)];
                    (stp, [0u64, 5, 6, 0xffff_ffff][ch.choose("length", 4)], false)
                }
            };
            bytes[o..o + 8].copy_from_slice(&stp.to_le_bytes());
            bytes[o + 8..o + 12].copy_from_slice(&(cb as u32).to_le_bytes());
            let exp = if ok { expect_section(&ir, NAME) } else { Err(X::Err) };
            check_bytes(cx, &bytes, &exp)
        },
    ));
    v.push(Space::new(
        "transaction-log-sizes",
        format!("the full layout with 2^k-1, 2^k or 2^k+1 bytes between header and package for every k of 6..={}, all of them counted by the log's length, by its offset, or half by each; and all but one bit of the end in its offset", if deep { 27 } else { 23 }),
        move |ch, cx| {
            let k = 6 + ch.choose("power", if deep { 22 } else { 18 });
            let gap = ((1u32 << k) as i64 + *ch.pick("difference", &[-1i64, 0, 1])) as u32;
            let ir = small();
            let (mut bytes, marks) = ir.build(&BuildOpts { layout: Layout::RevFull { gap }, ..Default::default() }).encode(&Opts { marks: true, ..Default::default() });
            let o = marks.iter().find(|m| m.tag == "transaction_log").unwrap().off;
            let end = o as u64 + 12 + gap as u64;
            let cb = match ch.choose("length", 4) {
                0 => 0,
                1 => gap as u64,
                2 => gap as u64 / 2,
                _ => {
                    let bits: Vec<u32> = (0..32).filter(|b| end >> b & 1 == 1).collect();
                    1 << *ch.pick("bit", &bits)
                }
            };
            bytes[o..o + 8].copy_from_slice(&(end - cb).to_le_bytes());
            bytes[o + 8..o + 12].copy_from_slice(&(cb as u32).to_le_bytes());
            check_bytes(cx, &bytes, &expect_section(&ir, NAME))
        },
    ));
    v.push(Space::new(
        "storage-references",
        "0..=3 references to a storage manifest in the storage index, each to the right one, to a second one, to none of that name or nil, the second one present or not; the package naming the right storage index, a second one or none, the second one present or not; the elements in three orders",
        move |ch, cx| {
            let ir = small();
            let mut pk = ir.build(&BuildOpts::default());
            let exp = expect_section(&ir, NAME);
            let (other_m, other_i) = (Ex::new([0x66; 16], 8), Ex::new([0x66; 16], 9));
            let at = |pk: &Package, f: fn(&Body) -> bool| pk.elems.iter().position(|e| f(&e.body)).unwrap();
            let mi = at(&pk, |b| matches!(b, Body::StorageManifest { .. }));
            let right_m = pk.elems[mi].id;
            // the references
            let n = ch.choose("references", 4);
            let refs: Vec<usize> = (0..n).map(|_| ch.choose("reference", 4)).collect();
            let second = ch.flag("second manifest");
            let ii = at(&pk, |b| matches!(b, Body::StorageIndex(_)));
            {
                let Body::StorageIndex(l) = &mut pk.elems[ii].body else { unreachable!() };
                l.retain(|s| !matches!(s, SI::Manifest { .. }));
                let new: Vec<SI> = refs
                    .iter()
                    .enumerate()
                    .map(|(i, k)| SI::Manifest { id: [right_m, other_m, Ex::new([0x67; 16], 1), Ex::NIL][*k], serial: [Some((GSER, i as u64)), None][i % 2] })
                    .collect();
                let behind = ch.flag("behind");
                if behind {
                    l.extend(new)
                } else {
                    l.splice(0..0, new);
                }
            }
            let good_m = match refs.iter().find(|k| **k == 0 || **k == 1 && second) {
                Some(k) => *k == 0,
                None => !second,
            };
            if second {
                let mut e = pk.elems[mi].clone();
                e.id = other_m;
                let Body::StorageManifest { roots, .. } = &mut e.body else { unreachable!() };
                roots.iter_mut().for_each(|r| r.1 = cell(99));
                pk.elems.insert(0, e);
            }
            let named = ch.choose("index named", 3);
            let second_i = ch.flag("second index");
            if second_i {
                pk.elems.insert(1, Elem::new(other_i, Body::StorageIndex(vec![SI::Manifest { id: right_m, serial: None }])));
            }
            if named > 0 {
                pk.storage_index = [other_i, Ex::new([0x67; 16], 2)][named - 1];
            }
            let good_i = named == 0 || !second_i;
            match ch.choose("order", 3) {
                0 => {}
                1 => pk.elems.reverse(),
                _ => pk.elems.rotate_left(3),
            }
            check_bytes(cx, &pk.bytes(), &if good_m && good_i { exp } else { Err(X::Err) })
        },
    ));
    v.push(Space::new(
        "count-differences",
        "one declaration or one datum of each object group of a small section stored 1..=300, 2^k-1, 2^k or 2^k+1 times in addition, for every k of 9..=20",
        move |ch, cx| {
            let mut pk = small().build(&BuildOpts { meta: ch.flag("metadata block"), ..Default::default() });
            let gs: Vec<usize> = (0..pk.elems.len()).filter(|i| matches!(pk.elems[*i].body, Body::Group { .. })).collect();
            let g = *ch.pick("group", &gs);
            let k = ch.choose("more", 300 + 12 * 3);
            let n = if k < 300 { 1 + k } else { (1 << (9 + (k - 300) / 3)) - 1 + (k - 300) % 3 };
            let Body::Group { decls, data, .. } = &mut pk.elems[g].body else { unreachable!() };
            if ch.flag("data") {
                let x = data[0].clone();
                data.extend(std::iter::repeat_n(x, n));
            } else {
                let x = decls[0].clone();
                decls.extend(std::iter::repeat_n(x, n));
            }
            check_reject(cx, &pk.bytes())
        },
    ));
    v.push(Space::new(
        "element-types",
        "the stored type of every data element of two files replaced by every value up to 255 and the boundary values of each wider encoding",
        move |ch, cx| {
            let ir = if ch.flag("rich") { rich() } else { small() };
            let mut pk = ir.build(&BuildOpts::default());
            pk.elems.push(Elem::new(Ex::new([0x78; 16], 4), Body::Fragment { id: eid(1), size: 2, off: 0, len: 2, data: vec![1, 2] }));
            let k = ch.choose("element", pk.elems.len());
            let x = ch.choose("type", 256 + 57 + 8);
            let (ty, w) = if x < 256 {
                (x as u64, if x == 0 { 0 } else if x < 128 { 1 } else { 2 })
            } else if x < 256 + 57 {
                // a defined type with a high bit added
                (pk.elems[k].body.ty() | 1 << (x - 256 + 7), 9)
            } else {
                (pk.elems[k].body.ty(), [1u8, 2, 3, 4, 5, 6, 7, 9][x - 256 - 57])
            };
            let same = ty == pk.elems[k].body.ty();
            pk.elems[k].ty = Some((ty, w));
            let exp = if same { expect_section(&ir, NAME) } else { Err(X::Err) };
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "element-presence",
        "each element of the small sections removed, or stored under another identifier (a lone storage index or manifest is still found), or an element of the same kind added next to it",
        move |ch, cx| {
            let m = minis();
            let ir = &m[ch.choose("section", m.len())];
            let mut pk = ir.build(&BuildOpts::default());
            let k = ch.choose("element", pk.elems.len());
            let exp = expect_section(ir, NAME);
            let lone = matches!(pk.elems[k].body, Body::StorageIndex(_) | Body::StorageManifest { .. });
            let exp = match ch.choose("how", 3) {
                0 => {
                    pk.elems.remove(k);
                    Err(X::Err)
                }
                1 => {
                    pk.elems[k].id = Ex::new([0x66; 16], 9);
                    if lone { exp } else { Err(X::Err) }
                }
                _ => {
                    // unused: nothing refers to it
                    let mut x = pk.elems[k].clone();
                    x.id = Ex::new([0x66; 16], 9);
                    let at = ch.choose("at", 3);
                    let at = [0, k + 1, pk.elems.len()][at];
                    pk.elems.insert(at, x);
                    exp
                }
            };
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "counts",
        "each declaration or each datum of each object group of the small sections removed or doubled, and both together",
        move |ch, cx| {
            let m = minis();
            let ir = &m[ch.choose("section", m.len())];
            let mut pk = ir.build(&BuildOpts { meta: ch.flag("metadata block"), ..Default::default() });
            let gs: Vec<usize> = (0..pk.elems.len()).filter(|i| matches!(pk.elems[*i].body, Body::Group { .. })).collect();
            let g = *ch.pick("group", &gs);
            let Body::Group { decls, data, .. } = &mut pk.elems[g].body else { unreachable!() };
            let k = ch.choose("entry", decls.len());
            match ch.choose("how", 4) {
                0 => {
                    decls.remove(k);
                }
                1 => {
                    data.remove(k);
                }
                2 => {
                    let x = decls[k].clone();
                    decls.insert(k, x);
                }
                _ => {
                    let x = data[k].clone();
                    data.insert(k, x);
                }
            }
            check_reject(cx, &pk.bytes())
        },
    ));
    v.push(Space::new(
        "group-entry-kinds",
        "each object of each group stored as an excluded object or as a blob reference, each data reference stored as an object, and each metadata frequency given every value up to 300",
        move |ch, cx| {
            let ir = small();
            let mut pk = ir.build(&BuildOpts { meta: true, ..Default::default() });
            let gs: Vec<usize> = (0..pk.elems.len()).filter(|i| matches!(pk.elems[*i].body, Body::Group { .. })).collect();
            let g = *ch.pick("group", &gs);
            let Body::Group { decls, data, meta } = &mut pk.elems[g].body else { unreachable!() };
            let k = ch.choose("entry", decls.len());
            let mut exp = Err(X::Err);
            match ch.choose("how", 3) {
                0 => {
                    // the header cell's object kind is never looked at
                    if g == gs[0] && k == 0 {
                        exp = Err(X::Any);
                    }
                    data[k] = match &data[k] {
                        Dat::Obj { refs, cells, data, .. } => Dat::Excluded { refs: refs.clone(), cells: cells.clone(), size: data.len() as u64 },
                        _ => Dat::Obj { refs: vec![], cells: vec![], data: vec![0; 8], marks: vec![] },
                    };
                }
                1 => {
                    if g == gs[0] && k == 0 {
                        exp = Err(X::Any);
                    }
                    if matches!(data[k], Dat::Blob { .. }) {
                        return Ok(());
                    }
                    data[k] = Dat::Blob { refs: vec![], cells: vec![], blob: Ex::new(GBLOB, 1) };
                }
                _ => {
                    let f = ch.choose("frequency", 301) as u64;
                    meta.as_mut().unwrap()[k] = f;
                    if f <= 4 {
                        exp = expect_section(&ir, NAME);
                    }
                }
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "store-roots",
        "the storage manifest's two roots in either order, each absent, doubled, under an identifier changed in one bit or number, naming the other's cell or a cell without mapping; the revision's roots likewise",
        move |ch, cx| {
            let ir = small();
            let mut pk = ir.build(&BuildOpts::default());
            let mut exp = expect_section(&ir, NAME);
            let mi = pk.elems.iter().position(|x| matches!(x.body, Body::StorageManifest { .. })).unwrap();
            let Body::StorageManifest { roots, .. } = &mut pk.elems[mi].body else { unreachable!() };
            if ch.flag("exchanged") {
                roots.swap(0, 1);
            }
            let k = ch.choose("root", 2);
            match ch.choose("how", 6) {
                0 => {}
                1 => {
                    roots.remove(k);
                    exp = Err(X::Err);
                }
                2 => {
                    let r = roots[k];
                    roots.push(r);
                }
                3 => {
                    let bit = ch.choose("bit", 128);
                    roots[k].0.g[bit / 8] ^= 1 << (bit % 8);
                    exp = Err(X::Err);
                }
                4 => {
                    roots[k].0.n = *ch.pick("number", &[0u32, 3, 4, 33, 1025, 1 << 20, u32::MAX]);
                    exp = Err(X::Err);
                }
                _ => {
                    roots[k].1 = cell(77);
                    exp = Err(X::Err);
                }
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "store-header",
        "the store header's object: each subset of its properties in every order, each of the wrong type or length, further properties, further objects and groups in its cell",
        move |ch, cx| {
            let ir = small();
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            let id: u32 = 0x1C001D94;
            let all = [
                Prop::new(id, PV::Vec(vec![0x21; 16])),
                Prop::new(0x1C001D95, PV::Vec(vec![0x22; 16])),
                Prop::new(0x14001D93, PV::U32(0xCAFE)),
                Prop::new(0x14001D99, PV::U32(5)),
            ];
            let mut ps = vec![];
            let mut need = 0;
            for i in ch.perm("order", 4) {
                if ch.flag("present") {
                    ps.push(all[i].clone());
                    need += (i < 3) as usize;
                }
            }
            let mut ok = need == 3;
            if !ps.is_empty() && ch.flag("damaged") {
                let k = ch.choose("which", ps.len());
                let opt = ps[k].id == all[3].id;
                let v = match ch.choose("with", 5) {
                    0 => PV::Vec(vec![1; 15]),
                    1 => PV::Vec(vec![]),
                    2 => PV::U16(3),
                    3 => PV::U64(9),
                    _ => PV::Empty,
                };
                ps[k].v = v;
                if opt {
                    // only read where it is stored as defined
                    return Ok(());
                }
                ok = false;
            }
            if ch.flag("unknown property") {
                ps.insert(ps.len() / 2, Prop::new(0x7001, PV::Vec(vec![1, 2, 3])));
            }
            let e = enc_obj(&ps, &hdr_cell().1, &ObjOpts::default(), false);
            let gi = pk.elems.iter().position(|x| matches!(x.body, Body::Group { .. })).unwrap();
            let Body::Group { data, .. } = &mut pk.elems[gi].body else { unreachable!() };
            if let Dat::Obj { data, .. } = &mut data[1] {
                *data = e.data;
            }
            check_bytes(cx, &pk.bytes(), &if ok { exp } else { Err(X::Err) })
        },
    ));

    // ---------------------------------------------------------- conforming
    v.push(Space::new(
        "variants",
        "every small section and the rich one in every combination of: 5 container layouts, 3 header forms, metadata blocks or none, shortest or widest integers and identifiers, 3 placements of unused fragments, 4 element orders",
        move |ch, cx| {
            let m = minis();
            let k = ch.choose("section", m.len() + 1);
            let ir = if k == m.len() { rich() } else { m[k].clone() };
            let layout = *ch.pick("layout", &[Layout::Package, Layout::RevLegacy, Layout::RevFull { gap: 0 }, Layout::RevFull { gap: 1 }, Layout::RevFull { gap: 4096 }]);
            let (h, hl) = *ch.pick("headers", &[(false, false), (true, false), (true, true)]);
            let meta = ch.flag("metadata block");
            let wide = ch.flag("wide");
            let frag = ch.choose("fragments", 3);
            let order = ch.choose("order", 4);
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts { layout, meta, ..Default::default() });
            match order {
                1 => pk.elems.reverse(),
                2 => {
                    let n = pk.elems.len() / 2;
                    pk.elems.rotate_left(n)
                }
                3 => pk.elems.sort_by_key(|e| (e.body.ty() * 7 % 11, e.id.n)),
                _ => {}
            }
            for i in 0..frag {
                let d = vec![0x05u8 + 0x50 * i as u8; 9];
                let f = Body::Fragment { id: eid(1 + i as u32), size: 9, off: 0, len: 9, data: d };
                let at = if i == 0 { pk.elems.len() } else { 0 };
                pk.elems.insert(at, Elem::new(Ex::new([0x78; 16], 40 + i as u32), f));
            }
            let o = Opts { hdr32: h, hdr32_long: hl, cu_min: if wide { 9 } else { 0 }, ex_min: if wide { 3 } else { 0 }, ..Default::default() };
            check_bytes(cx, &pk.encode(&o).0, &exp)
        },
    ));
    let fl = if deep { 300 } else { 140 };
    v.push(Space::new(
        "fragments",
        format!("an unused fragment of every length up to {fl} at every position among the elements, its data made of 5 kinds of marker bytes, its chunk reference 4 ways"),
        move |ch, cx| {
            let ir = small();
            let mut pk = ir.build(&BuildOpts::default());
            let n = ch.choose("length", fl + 1);
            let x = *ch.pick("data", &[0u8, 0x05, 0x55, 0x79, 0x0c]);
            let (off, len) = *ch.pick("chunk", &[(0u64, 0u64), (0, 1), (5, 1 << 33), (u64::MAX, u64::MAX)]);
            let len = if len == 1 { n as u64 } else { len };
            let at = ch.choose("position", pk.elems.len() + 1);
            let f = Body::Fragment { id: eid(1), size: n as u64, off, len, data: vec![x; n] };
            pk.elems.insert(at, Elem::new(Ex::new([0x78; 16], 4), f));
            if len != n as u64 {
                // the size of what follows is stored twice; only agreeing sizes are promised
                return super::c01::run(cx, false, &pk.bytes());
            }
            check_bytes(cx, &pk.bytes(), &expect_section(&ir, NAME))
        },
    ));
    let span = if deep { 600 } else { 160 };
    v.push(Space::new(
        "long-objects",
        format!("an image, an attachment and a text of every length in a range of {span} below each of: 64, 128, 2^14, 2^15, 2^16, 2^17 bytes (every length a stream object header can state around its limits), in 3 header forms"),
        move |ch, cx| {
            let base = *ch.pick("limit", &[64usize, 128, 1 << 14, (1 << 15) + 8, (1 << 16) + 8, (1 << 17) + 8]);
            let what = ch.choose("what", 3);
            let (h, hl) = *ch.pick("headers", &[(false, false), (true, false), (true, true)]);
            let below = ch.choose("below", span);
            if below > base {
                return Ok(());
            }
            let n = base - below;
            let mut b = B::new();
            let o = match what {
                0 => b.image(Some((0..n).map(|i| (i * 7 + i / 251) as u8).collect())),
                1 => b.file("a.bin", (0..n).map(|i| (i * 5 + i / 241) as u8).collect()),
                // two bytes per character
                _ => b.para(&"x".repeat(base / 2 - below.min(base / 2))),
            };
            let o = b.wrap(&[o]);
            let ir = section1(b, &[o], None);
            let exp = expect_section(&ir, NAME);
            let by = ir.build(&BuildOpts::default()).encode(&Opts { hdr32: h, hdr32_long: hl, ..Default::default() }).0;
            check_bytes(cx, &by, &exp)
        },
    ));
    v.push(Space::new(
        "manifest-entries",
        "every order of the entries of a revision manifest with two roots and three groups, and of the storage index's entries by kind",
        move |ch, cx| {
            let mut ir = small();
            let objs = std::mem::take(&mut ir.spaces[1].revs[0].groups[0].objs);
            let third = objs.len().div_ceil(3);
            ir.spaces[1].revs[0].groups = objs.chunks(third).enumerate().map(|(i, c)| GroupIR { id: eid(7000 + i as u32), objs: c.to_vec() }).collect();
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            if ch.flag("storage index") {
                let e = pk.elems.iter_mut().find(|e| matches!(e.body, Body::StorageIndex(_))).unwrap();
                let Body::StorageIndex(l) = &mut e.body else { unreachable!() };
                let n = l.len().min(7);
                let p = ch.perm("order", n);
                let old = l.clone();
                for (i, k) in p.iter().enumerate() {
                    l[i] = old[*k].clone();
                }
            } else {
                let e = pk.elems.iter_mut().filter(|e| matches!(e.body, Body::RevManifest { .. })).next_back().unwrap();
                let Body::RevManifest { entries, .. } = &mut e.body else { unreachable!() };
                let old = entries.clone();
                let p = ch.perm("order", entries.len());
                *entries = p.iter().map(|i| old[*i].clone()).collect();
            }
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(super::scale::space("C04", t));
    v
}
