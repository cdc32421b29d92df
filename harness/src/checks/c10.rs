//! Listing: the present sections and groups of a notebook, in stored order.
use crate::enc::*;
use crate::explore::*;
use crate::fsm::*;
use crate::ids::*;
use crate::model::*;
use crate::store::*;

pub const TOC: &str = "nb/Open Notebook.onetoc2";
const ORD: [u32; 5] = [1, 2, 0, 0x8000_0000, u32::MAX];

pub fn base() -> Fs {
    let mut f = Fs::default();
    f.put("nb/A.one", sec(0))
        .put("nb/B.one", sec(1))
        .put("nb/x+y.one", sec(2))
        .put("nb/x^My.one", sec(3))
        .put("nb/G/t.onetoc2", toc(&["C.one"]))
        .put("nb/G/C.one", sec(4))
        .put("nb/Empty/t.onetoc2", toc(&[]))
        .put("nb/OneNote_RecycleBin/t.onetoc2", toc(&["D.one"]))
        .put("nb/OneNote_RecycleBin/D.one", sec(5));
    f
}
fn put_toc(f: &mut Fs, ir: StoreIR) {
    f.put(TOC, Nd::File(F::toc(ir)));
}
/// Build a table of contents of up to `max` containers by choices.
fn tree(ch: &mut Ch, max: usize, names: &[&str], ords: &[u32]) -> StoreIR {
    let mut objs = vec![];
    let mut kids: Vec<Vec<Ex>> = vec![vec![]];
    let n = ch.choose("containers", max + 1);
    for i in 0..n {
        let id = xo(10 + i as u32);
        // attach to the root or any earlier folder
        let at = ch.choose("parent", kids.len());
        kids[at].push(id);
        if ch.flag("folder") {
            kids.push(vec![]);
            let me = kids.len() - 1;
            objs.push((me, toc_node(id, &[])));
        } else {
            objs.push((usize::MAX, toc_leaf(id, ch.pick("name", names), *ch.pick("order", ords))));
        }
    }
    let mut out: Vec<Obj> = objs
        .into_iter()
        .map(|(k, mut o)| {
            if k != usize::MAX {
                o.set(p::TocChildren, PV::Oids(kids[k].clone()));
            }
            o
        })
        .collect();
    out.push(toc_node(xo(1), &kids[0]));
    toc_store(out, xo(1))
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("table of contents", &[jc::TocContainer], t == Tier::Thorough));
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "flat",
        format!("every table of 0..={n} entries, each with one of 8 names (sections, groups, escaped, missing, recycle bin) and one of {} order numbers", if deep { 3 } else { 5 }),
        move |ch, cx| {
            let mut f = base();
            let k = ch.choose("entries", n + 1);
            let mut e = vec![];
            for _ in 0..k {
                let name = *ch.pick("name", &["A.one", "B.one", "G", "missing.one", "OneNote_RecycleBin", "x^My.one", "Empty", "x+y.one"]);
                e.push((name, *ch.pick("order", if deep { &ORD[2..5] } else { &ORD })));
            }
            put_toc(&mut f, toc_flat(&e));
            check_fs(cx, &f, TOC)
        },
    ));
    let n = if deep { 5 } else { 4 };
    v.push(Space::new(
        "nested-containers",
        format!("every tree of up to {n} containers (folders and entries of 3 names and 2 order numbers) below the root of the table"),
        move |ch, cx| {
            let mut f = base();
            let ir = tree(ch, n, &["A.one", "B.one", "G"], &[1, 2]);
            put_toc(&mut f, ir);
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "orders",
        "4 entries with every assignment of 9 order numbers (signs, byte order, equal ones)",
        move |ch, cx| {
            const O: [u32; 9] = [0, 1, 2, 0x100, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0001_0000];
            let mut f = base();
            let mut e = vec![];
            for n in ["A.one", "B.one", "G", "Empty"] {
                e.push((n, *ch.pick("order", &O)));
            }
            put_toc(&mut f, toc_flat(&e));
            check_fs(cx, &f, TOC)
        },
    ));
    let r = if deep { 7 } else { 5 };
    v.push(Space::new(
        "repeats",
        format!("every sequence of up to {r} entries of 3 names with equal or ascending or descending order numbers: only neighbouring repeats collapse"),
        move |ch, cx| {
            let mut f = base();
            let k = ch.choose("entries", r + 1);
            let how = ch.choose("numbers", 3);
            let mut e = vec![];
            for i in 0..k {
                let name = *ch.pick("name", &["A.one", "B.one", "G"]);
                e.push((name, [5, i as u32, 100 - i as u32][how]));
            }
            put_toc(&mut f, toc_flat(&e));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "presence",
        "7 entries at two levels, every subset of which exists, as a file, a directory without table of contents, a group or (for sections) a wrong file",
        move |ch, cx| {
            let mut f = Fs::default();
            f.put("nb", Nd::Dir);
            let top = ["a.one", "b.one", "g", "h"];
            for n in top {
                match ch.choose("is", 4) {
                    0 => {}
                    1 => {
                        f.put(&format!("nb/{n}"), sec(1));
                    }
                    2 => {
                        f.put(&format!("nb/{n}/t.onetoc2"), toc(&["c.one", "k"]));
                        if ch.flag("section") {
                            f.put(&format!("nb/{n}/c.one"), sec(2));
                        }
                        match ch.choose("group", 3) {
                            0 => {}
                            1 => {
                                f.put(&format!("nb/{n}/k/z.onetoc2"), toc(&["d.one"])).put(&format!("nb/{n}/k/d.one"), sec(3));
                            }
                            _ => {
                                f.put(&format!("nb/{n}/k"), Nd::Dir);
                            }
                        }
                    }
                    _ => {
                        f.put(&format!("nb/{n}"), Nd::Dir);
                    }
                }
            }
            f.put(TOC, toc(&top));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "linked-entries",
        "3 entries of the notebook and one of a group, each absent, a file, a group, an empty directory, a link (relative, absolute or through another link) to a section or a group with another name, or a link to nothing",
        move |ch, cx| {
            let mut f = base();
            f.put("nb/G/H/t.onetoc2", toc(&["F.one"])).put("nb/G/H/F.one", sec(6));
            f.put("nb/hop.one", link("B.one")).put("nb/hop", link("G"));
            let top = ["e.one", "f", "g.one"];
            let mut place = |f: &mut Fs, at: &str, inner: bool| {
                let to: &[&str] = if inner { &["C.one", "@nb/G/C.one", "H", "@nb/G/H", "H/F.one", "none", "H/none.one"] } else { &["A.one", "@nb/B.one", "G", "@nb/Empty", "G/C.one", "hop.one", "hop", "hop/C.one", "none", "none.one"] };
                match ch.choose("is", 4 + to.len()) {
                    0 => {}
                    1 => {
                        f.put(at, sec(7));
                    }
                    2 => {
                        f.put(&format!("{at}/t.onetoc2"), toc(&["C.one"])).put(&format!("{at}/C.one"), sec(5));
                    }
                    3 => {
                        f.put(at, Nd::Dir);
                    }
                    k => {
                        f.put(at, link(to[k - 4]));
                    }
                }
            };
            for n in top {
                place(&mut f, &format!("nb/{n}"), false);
            }
            place(&mut f, "nb/G/e.one", true);
            f.put("nb/G/t.onetoc2", toc(&["C.one", "e.one"]));
            f.put(TOC, toc(&[top[0], top[1], "G", top[2]]));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "wrong-files",
        "an entry (section or inside a group, or the group's own table, or the notebook's) that is one of 9 wrong files (other kind, empty, text, truncated, a directory) beside good ones",
        move |ch, cx| {
            let mut f = base();
            let whole = SECS[1].bytes().clone();
            let bad: Vec<Nd> = vec![
                toc(&["A.one"]),
                Nd::File(F::raw(b"")),
                Nd::File(F::raw(b"hello")),
                Nd::File(F::raw(&whole[..whole.len() / 2])),
                Nd::File(F::raw(&whole[1..])),
                Nd::File(F::raw(&[0; 4096])),
                Nd::File(F::raw(&whole[..16])),
                Nd::Dir,
                sec(1),
            ];
            let b = bad[ch.choose("what", bad.len())].clone();
            f.put(TOC, toc(&["A.one", "G", "W"]));
            match ch.choose("where", 5) {
                0 => f.put("nb/W", b),
                1 => f.put("nb/G/W", b).put("nb/G/t.onetoc2", toc(&["C.one", "W"])),
                2 => f.put("nb/G/t.onetoc2", b),
                3 => f.put("nb/W/w.onetoc2", b),
                _ => f.put(TOC, b),
            };
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "escapes",
        "every name of up to 4 of 10 pieces (^M, ^J, ^, M, J, +, comma, letters, ^m, ^^M) in the presence of both the decoded and the literal file",
        move |ch, cx| {
            const P: [&str; 10] = ["a", "^M", "^J", "^", "M", "J", "+", ",", "^m", "^^M"];
            let n = 1 + ch.choose("pieces", 4);
            let name: String = (0..n).map(|_| *ch.pick("piece", &P)).collect();
            let mut f = Fs::default();
            let dec = name.replace("^M", "+").replace("^J", ",");
            f.put(&format!("nb/{name}"), sec(1));
            let both = ch.flag("decoded exists");
            if both {
                f.put(&format!("nb/{dec}"), sec(2));
            } else if dec == name {
                return Ok(());
            }
            f.put(TOC, toc(&[&name]));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "recycle-bin",
        "the recycle bin, 8 similar names and 5 paths through or below it as the only, first or last entry of the notebook or of a group, as section, group, broken group or absent; the notebook itself inside a directory of one of 4 names",
        move |ch, cx| {
            let names = [
                "OneNote_RecycleBin", "OneNote_RecycleBin.one", "OneNote_RecycleBin2", "XOneNote_RecycleBin", "RecycleBin", "OneNote", "OneNote_RecycleBi",
                "OneNote RecycleBin", "G/OneNote_RecycleBin", "OneNote_RecycleBin/X", "OneNote_RecycleBin/X.one", "OneNote_RecycleBin/OneNote_RecycleBin",
                "OneNote_RecycleBin/./C.one", "onenote_recyclebin",
            ];
            let n = *ch.pick("name", &names);
            let mut f = base();
            let d = ["nb", "nb/G"][ch.choose("level", 2)];
            if d == "nb/G" && n.contains('/') {
                return Ok(());
            }
            let real = n.replace("./", "");
            match ch.choose("is", 4) {
                0 => {}
                3 => {
                    f.put(&format!("{d}/{real}"), sec(6));
                }
                1 => {
                    f.put(&format!("{d}/{real}/q.onetoc2"), toc(&["R.one"])).put(&format!("{d}/{real}/R.one"), sec(6));
                }
                // a broken recycle bin is nobody's concern
                _ => {
                    f.put(&format!("{d}/{real}"), Nd::Dir);
                }
            }
            let list: Vec<&str> = match ch.choose("position", 3) {
                0 => vec![n],
                1 => vec![n, "C.one", "A.one"],
                _ => vec!["C.one", "A.one", n],
            };
            if d == "nb/G" {
                f.put("nb/G/t.onetoc2", toc(&list));
                f.put(TOC, toc(&["G", "B.one"]));
            } else {
                f.put(TOC, toc(&list));
            }
            let around = *ch.pick("notebook in", &["", "OneNote_RecycleBin", "OneNote_RecycleBin/sub", "OneNote_RecycleBin.one"]);
            if around.is_empty() {
                return check_fs(cx, &f, TOC);
            }
            let mut g = Fs::default();
            for (k, v) in f.nodes {
                // the notebook's directory itself goes by that name, or one above it
                let k = if around.contains('/') { format!("{around}/{k}") } else { k.replacen("nb", around, 1) };
                g.put(&k, v);
            }
            let t = if around.contains('/') { format!("{around}/{TOC}") } else { TOC.replacen("nb", around, 1) };
            check_fs(cx, &g, &t)
        },
    ));
    v.push(Space::new(
        "similar-names",
        "two neighbouring entries whose names differ only in case, spaces, normal form, an invisible character, extension or number, both of them present, in both orders, with equal or ascending order numbers, plain or in folders of their own",
        move |ch, cx| {
            const N: [(&str, &str); 24] = [
                ("a.one", "A.one"), ("a.one", "a.ONE"), ("é.one", "e\u{301}.one"), ("é.one", "É.one"), ("ß.one", "ss.one"), ("ß.one", "ẞ.one"), ("ı.one", "i.one"),
                ("a.one", "a .one"), ("a.one", " a.one"), ("a.one", "a.one "), ("a b.one", "a  b.one"), ("a b.one", "a\u{a0}b.one"), ("a.one", "a\u{200b}.one"),
                ("a.one", "a.onex"), ("a.one", "a"), ("a.one", "a.one.one"), ("a1.one", "a01.one"), ("a.one", "b.one"), ("a-b.one", "a_b.one"), ("ﬁ.one", "fi.one"),
                ("\u{212b}.one", "\u{c5}.one"), ("a.one", "ａ.one"), ("😀.one", "😁.one"), ("a+.one", "a,.one"),
            ];
            let (a, b) = *ch.pick("names", &N);
            let (a, b) = if ch.flag("swapped") { (b, a) } else { (a, b) };
            let mut f = base();
            for (i, n) in [a, b].iter().enumerate() {
                if ch.flag("group") {
                    f.put(&format!("nb/{n}/t.onetoc2"), toc(&["C.one"])).put(&format!("nb/{n}/C.one"), sec(3 + i));
                } else {
                    f.put(&format!("nb/{n}"), sec(3 + i));
                }
            }
            let k = ch.choose("order", 3) as u32;
            let mut objs = vec![toc_leaf(xo(10), a, 5), toc_leaf(xo(11), b, 4 + k)];
            if ch.flag("folders") {
                objs.push(toc_node(xo(12), &[xo(10)]));
                objs.push(toc_node(xo(13), &[xo(11)]));
                objs.push(toc_node(xo(1), &[xo(12), xo(13)]));
            } else {
                objs.push(toc_node(xo(1), &[xo(10), xo(11)]));
            }
            put_toc(&mut f, toc_store(objs, xo(1)));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "many-equal-orders",
        "0..=200 entries (step 4) all with the same order number, with two alternating ones, with runs of 3 equal ones ascending or descending, or equal up to the first, middle or last; all present",
        move |ch, cx| {
            let n = ch.choose("entries", 51) * 4;
            let how = ch.choose("order", 7);
            let mut f = Fs::default();
            let names: Vec<String> = (0..n).map(|i| format!("s{}.one", (i * 7919) % 1009)).collect();
            let e: Vec<(&str, u32)> = names
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    f.put(&format!("nb/{s}"), sec(i % 8));
                    let j = i as u32;
                    let odd = |k: usize| if i == k { 1 } else { 7 };
                    (&s[..], [7, j % 2, j / 3, 5000 - j / 3, odd(0), odd(n / 2), odd(n - 1)][how])
                })
                .collect();
            put_toc(&mut f, toc_flat(&e));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "group-tables",
        "a group directory holding every subset of 13 files with names similar to a table of contents', with at most one table",
        move |ch, cx| {
            let mut f = Fs::default();
            f.put("nb/g", Nd::Dir);
            f.put(TOC, toc(&["g"]));
            let m = ch.choose("others", if deep { 1 << 13 } else { 1 << 10 });
            let m = if deep { m } else { (m & 255) | (m >> 8 & 1) * 0x700 | (m >> 9 & 1) * 0x1800 };
            let others = [
                ".onetoc2", "onetoc2", "x.onetoc2.bak", "x.onetoc", "x.onetoc22", "a.one", "Open Notebook.onetoc2x", "x.one.onetoc3", "x.ONETOC2", "a.OneToc2", "ONETOC2", "x.xonetoc2", "a.onetoc2 "];
            for (i, o) in others.iter().enumerate() {
                if m >> i & 1 == 1 {
                    f.put(&format!("nb/g/{o}"), if *o == "a.one" { sec(3) } else { Nd::File(F::names(&["a.one", "zz"])) });
                }
            }
            let name = *ch.pick("table", &["", "t.onetoc2", "Open Notebook.onetoc2", "a.b.onetoc2", ".x.onetoc2", "é.onetoc2", " .onetoc2", "Notebook.one.onetoc2"]);
            if !name.is_empty() {
                f.put(&format!("nb/g/{name}"), toc(&["a.one"]));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "colours",
        "notebook colour absent, each of 32 single bits, none and others, set at the root, an entry, a folder or several of them",
        move |ch, cx| {
            let mut f = base();
            let col = |c: usize| -> Option<u32> {
                match c {
                    0 => None,
                    1..=32 => Some(1 << (c - 1)),
                    33 => Some(u32::MAX),
                    34 => Some(0xff00_0000),
                    35 => Some(0x0012_3456),
                    _ => Some(0),
                }
            };
            let c1 = col(ch.choose("root colour", 37));
            let c2 = col(ch.choose("other colour", 37));
            let mut ir = toc_flat(&[("A.one", 1), ("G", 2)]);
            if let Some(c) = c1 {
                ir.obj(0, xo(1)).set(p::SectionColor, PV::U32(c));
            }
            let at = ch.choose("other", 2);
            if let Some(c) = c2 {
                ir.obj(0, xo(10 + at as u32)).set(p::SectionColor, PV::U32(c));
            }
            put_toc(&mut f, ir);
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "damaged-tables",
        "a table in which one of 5 containers lacks its order number, its name, its object, is another kind of object, is referenced twice, or has children as well",
        move |ch, cx| {
            let mut f = base();
            let mut objs = vec![
                toc_leaf(xo(10), "A.one", 3),
                toc_leaf(xo(11), "G", 1),
                toc_leaf(xo(12), "B.one", 2),
                toc_node(xo(13), &[xo(12), xo(14)]),
                toc_leaf(xo(14), "Empty", 9),
                toc_node(xo(1), &[xo(10), xo(13), xo(11)]),
            ];
            let k = ch.choose("container", 6);
            match ch.choose("damage", 9) {
                0 => {}
                1 => {
                    objs[k].unset(p::NotebookElementOrderingId);
                }
                2 => {
                    objs[k].unset(p::FolderChildFilename);
                }
                3 => {
                    objs.remove(k);
                }
                4 => objs[k].jcid = *ch.pick("kind", jc::ALL),
                5 => {
                    let id = objs[k].id;
                    objs[5].set(p::TocChildren, PV::Oids(vec![id, xo(10), id, xo(13), xo(11)]));
                }
                6 => {
                    objs[k].set(p::TocChildren, PV::Oids(vec![xo(14)]));
                }
                7 => {
                    objs[k].set(p::FolderChildFilename, PV::s("x^My.one"));
                }
                _ => {
                    objs[k].set(p::NotebookElementOrderingId, PV::U16(3));
                }
            }
            let ir = toc_store(objs, xo(1));
            put_toc(&mut f, ir);
            check_fs(cx, &f, TOC)
        },
    ));
    let (wide, long) = if deep { (1200, 40) } else { (300, 40) };
    v.push(Space::new(
        "sizes",
        format!("0..={wide} entries in stored, reverse or mixed order of which every third exists; groups nested 1..={long} deep with a section before and after the group on every level"),
        move |ch, cx| {
            if ch.flag("deep") {
                let d = 1 + ch.choose("depth", long);
                let both = ch.choose("sections", 4);
                let mut f = Fs::default();
                let mut p = "nb".to_string();
                f.put(TOC, toc(&["a.one", "g", "z.one"]));
                for _ in 0..d {
                    if both & 1 == 1 {
                        f.put(&format!("{p}/a.one"), sec(1));
                    }
                    if both & 2 == 2 {
                        f.put(&format!("{p}/z.one"), sec(2));
                    }
                    p = format!("{p}/g");
                    f.put(&format!("{p}/t.onetoc2"), toc(&["a.one", "g", "z.one"]));
                }
                return check_fs(cx, &f, TOC);
            }
            let k = ch.choose("entries", wide / if deep { 4 } else { 3 }) * 3 % wide;
            let how = ch.choose("order", 3);
            let mut f = Fs::default();
            let names: Vec<String> = (0..k).map(|i| format!("s{i}.one")).collect();
            for (i, n) in names.iter().enumerate() {
                if i % 3 == 1 {
                    f.put(&format!("nb/{n}"), sec(i % 8));
                }
            }
            let e: Vec<(&str, u32)> = names
                .iter()
                .enumerate()
                .map(|(i, n)| (&n[..], [i as u32, 5000 - i as u32, (i as u32).wrapping_mul(0x9E37_79B9)][how]))
                .collect();
            put_toc(&mut f, toc_flat(&e));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "subfolder-names",
        "entries that name files and groups in subdirectories (G/C.one, G/H, ./A.one, G//C.one) along with plain ones, in both orders",
        move |ch, cx| {
            let mut f = base();
            f.put("nb/G/H/C.one", sec(7)).put("nb/G/H/h.onetoc2", toc(&["C.one", "missing"]));
            const N: [&str; 9] = ["A.one", "G", "G/C.one", "G/H", "./A.one", "G//C.one", "G/H/C.one", "G/missing.one", "missing/A.one"];
            let a = *ch.pick("first", &N);
            let b = *ch.pick("second", &N);
            let c = *ch.pick("third", &N);
            put_toc(&mut f, toc_flat(&[(a, 1), (b, *ch.pick("order", &[0, 1, 2])), (c, 1)]));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(super::scale::listing(t));
    v
}
