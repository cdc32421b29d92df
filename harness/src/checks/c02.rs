//! Cyclic, self-referential, shared and deep reference structures.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::store::*;
use crate::tree::*;
use crate::util::*;
use std::path::{Path, PathBuf};

fn para_page(n: u32, text: &str) -> StoreIR {
    let mut b = B::new();
    let t = b.para(text);
    let o = b.wrap(&[t]);
    let _ = n;
    section1(b, &[o], None)
}

/// A section whose page cell has the given revisions (index = revision), each
/// with its own version of one text, `base[i]` among 0..n (revision), n (none)
/// and n+1 (a revision that does not exist).
pub fn chain(base: &[usize], head: usize, direct: bool) -> (Package, XR<T>) {
    let n = base.len();
    let rid = |i: usize| Ex::new(GREV, 5000 + i as u32);
    let mid = |i: usize| eid(5000 + i as u32);
    let mut ir = para_page(2, "oldest");
    let text = ir.spaces[1].revs[0].groups[0].objs.iter().find(|o| o.jcid == jc::RichTextNode).unwrap().clone();
    let full = ir.spaces[1].revs[0].clone();
    let mut revs = vec![];
    for i in 0..n {
        let mut r = full.clone();
        r.rev = rid(i);
        r.manifest = mid(i);
        r.base = match base[i] {
            k if k < n => if direct { mid(k) } else { rid(k) },
            k if k == n => Ex::NIL,
            _ => Ex::new(GREV, 4999),
        };
        r.groups[0].id = eid(6000 + i as u32);
        // every revision but the first only changes the text
        if i != 0 {
            let mut t = text.clone();
            t.set(p::RichEditTextUnicode, PV::s(&format!("revision {i}")));
            r.groups[0].objs = vec![t];
            r.roots = vec![];
        }
        revs.push(r);
    }
    // visible chain
    let mut seen = vec![];
    let mut cur = head;
    let exp = loop {
        if seen.contains(&cur) {
            break Err(X::Err);
        }
        if cur == n {
            break Ok(());
        }
        if cur > n {
            break Err(X::Err);
        }
        seen.push(cur);
        cur = base[cur];
    };
    let mut vis = ir.clone();
    vis.spaces[1].revs = seen.iter().map(|i| revs[*i].clone()).collect();
    let exp = exp.and_then(|_| expect_section(&vis, NAME));
    // encode all of them, the head first
    let h = revs[head].clone();
    ir.spaces[1].revs = vec![h];
    ir.spaces[1].revs.extend(revs.into_iter().enumerate().filter(|(i, _)| *i != head).map(|x| x.1));
    let mut pk = ir.build(&BuildOpts::default());
    if direct {
        // manifests referenced by element id, no revision mappings for this cell
        for e in &mut pk.elems {
            if let Body::StorageIndex(v) = &mut e.body {
                v.retain(|s| !matches!(s, SI::Rev { id, .. } if id.g == GREV && id.n >= 5000));
            }
            if let Body::CellManifest(x) = &mut e.body {
                if x.g == GREV && x.n >= 5000 {
                    *x = mid((x.n - 5000) as usize);
                }
            }
        }
    }
    (pk, exp)
}

/// Content graph over nodes with the given kinds (0 element, 1 group, 2 element
/// whose content is a table) and children
fn graph(kinds: &[usize], kids: &[Vec<usize>], roots: &[usize]) -> StoreIR {
    let mut b = B::new();
    let st = b.style();
    let t = b.text("x", st);
    // allocate nodes first, then connect
    let ids: Vec<Ex> = kinds
        .iter()
        .map(|k| match k {
            0 => b.element(1, &[t], &[]),
            1 => b.group(1, &[]),
            _ => {
                let c = b.cell(&[]);
                let r = b.row(&[c]);
                let tb = b.table(&[r], 1, 1);
                b.element(1, &[tb], &[])
            }
        })
        .collect();
    for (i, k) in kinds.iter().enumerate() {
        let to: Vec<Ex> = kids[i].iter().map(|j| ids[*j]).collect();
        if *k == 2 {
            // the cell is three objects before its element
            let c = xo(ids[i].n - 3);
            b.set(c, p::ElementChildNodes, PV::Oids(to));
        } else if !to.is_empty() {
            b.set(ids[i], p::ElementChildNodes, PV::Oids(to));
        }
    }
    let r: Vec<Ex> = roots.iter().map(|j| ids[*j]).collect();
    let o = b.outline(&r);
    section1(b, &[o], None)
}

fn slots(ch: &mut Ch, n: usize, w: usize) -> Vec<usize> {
    // non-decreasing presence: a missing slot ends the list
    let mut v = vec![];
    for _ in 0..w {
        let k = ch.choose("child", n + 1);
        if k == n {
            break;
        }
        v.push(k);
    }
    v
}

fn toc_graph(kids: &[Vec<usize>], leaf: &[bool]) -> StoreIR {
    let n = kids.len();
    let mut objs: Vec<Obj> = vec![];
    for i in 0..n {
        let id = xo(100 + i as u32);
        if leaf[i] {
            let mut o = toc_leaf(id, &format!("missing {i}.one"), i as u32);
            o.set(p::TocChildren, PV::Oids(kids[i].iter().map(|k| xo(100 + *k as u32)).collect()));
            objs.push(o);
        } else {
            objs.push(toc_node(id, &kids[i].iter().map(|k| xo(100 + *k as u32)).collect::<Vec<_>>()));
        }
    }
    toc_store(objs, xo(100))
}
/// A table of contents alone: only success, failure and colour can be seen
fn check_toc(cx: &mut Cx, ir: &StoreIR) -> R {
    let bytes = ir.build(&BuildOpts::default()).bytes();
    cx.mix(&bytes);
    let exp = expect_toc(ir).map(|(_, c)| T::N("notebook", vec![("color", c), ("entries", T::L(vec![]))]));
    let got = parse_toc_bytes(cx, &bytes)?;
    judge(cx, &exp, &got)
}

const DEEP: &[usize] = &[
    100, 120, 126, 127, 128, 129, 130, 140, 160, 200, 256, 300, 400, 500, 700, 1000, 1500, 2000, 3000, 5000, 10_000, 20_000, 40_000,
];
fn depth(ch: &mut Ch, all: usize) -> usize {
    let k = ch.choose("depth", all + DEEP.len());
    if k < all { k + 1 } else { DEEP[k - all] }
}

/// a straight nest of `d` nodes following a pattern of kinds
fn nest(pat: &[usize], d: usize) -> StoreIR {
    let mut b = B::new();
    let st = b.style();
    let t = b.text("x", st);
    let mut below: Vec<Ex> = vec![];
    for i in (0..d).rev() {
        // a table cell only takes elements
        below = vec![match pat[i % pat.len()] {
            0 => b.element(1, &[t], &below),
            1 => b.group(1, &below),
            _ => {
                let c = b.cell(&below);
                let r = b.row(&[c]);
                let tb = b.table(&[r], 1, 1);
                b.element(1, &[tb], &[])
            }
        }];
    }
    let o = b.outline(&below);
    section1(b, &[o], None)
}

/// property sets nested `d` deep: bit i of `pat` selects a list of sets or a single set at level i mod 3
fn nested_sets(pat: usize, d: usize, width: u32) -> PV {
    let mut v = vec![];
    let one = |v: &mut Vec<u8>, list: bool| {
        v.extend(1u16.to_le_bytes());
        if list {
            v.extend((0x11u32 | 16 << 26).to_le_bytes());
            v.extend(width.to_le_bytes());
            v.extend(0x4400_0811u32.to_le_bytes());
        } else {
            v.extend((0x12u32 | 17 << 26).to_le_bytes());
        }
    };
    for i in 0..d {
        one(&mut v, pat >> (i % 3) & 1 == 1);
    }
    v.extend(0u16.to_le_bytes());
    PV::Raw(17, v)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    let nmax = if th { 5 } else { 4 };
    v.push(Space::new(
        "revision-graphs",
        "1..=4 (thorough 5) revisions of a cell, every base function including none, missing, self and cyclic ones, every head, resolved by mapping or directly",
        move |ch, cx| {
            let n = 1 + ch.choose("revisions", nmax);
            let base: Vec<usize> = (0..n).map(|_| ch.choose("base", n + 2)).collect();
            let head = ch.choose("head", n);
            let (pk, exp) = chain(&base, head, ch.flag("direct"));
            check_bytes(cx, &pk.bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "cross-cell-revisions",
        "two page cells with 2 revisions each, every base among the 4 revisions, none or missing",
        move |ch, cx| {
            let mk = |n: u32, s: &str| {
                let mut b = B::new();
                let t = b.para(s);
                let o = b.wrap(&[t]);
                page_space(n, b, &[o], None).0
            };
            let (a, c) = (mk(2, "two"), mk(3, "three"));
            let all = [a.revs[0].clone(), c.revs[0].clone()];
            let mut revs = vec![];
            for i in 0..4usize {
                let mut r = all[i / 2].clone();
                r.rev = Ex::new(GREV, 5000 + i as u32);
                r.manifest = eid(5000 + i as u32);
                r.groups[0].id = eid(6000 + i as u32);
                if i % 2 == 0 {
                    // the newer revision of each cell holds just the roots and its text
                    r.groups[0].objs.retain(|o| o.jcid == jc::RichTextNode);
                    r.groups[0].objs[0].set(p::RichEditTextUnicode, PV::s(&format!("newer {i}")));
                }
                revs.push(r);
            }
            let base: Vec<usize> = (0..4).map(|_| ch.choose("base", 6)).collect();
            for i in 0..4 {
                revs[i].base = match base[i] {
                    4 => Ex::NIL,
                    k => Ex::new(GREV, if k == 5 { 1 } else { 5000 + k as u32 }),
                };
            }
            let mut vis = vec![section_root(&[vec![cell(2)], vec![cell(3)]])];
            let mut exp = Ok(());
            for (n, h) in [(2u32, 0usize), (3, 2)] {
                let mut seen = vec![];
                let mut cur = h;
                loop {
                    if cur == 4 {
                        break;
                    }
                    if cur == 5 || seen.contains(&cur) {
                        exp = Err(X::Err);
                        break;
                    }
                    seen.push(cur);
                    cur = base[cur];
                }
                vis.push(SpaceIR { cell: cell(n), manifest: eid(1000 * n), revs: seen.iter().map(|i| revs[*i].clone()).collect() });
            }
            let ir = StoreIR { schema: C.section, spaces: vis, blobs: vec![] };
            let exp = exp.and_then(|_| expect_section(&ir, NAME));
            let full = StoreIR {
                schema: C.section,
                spaces: vec![
                    ir.spaces[0].clone(),
                    SpaceIR { revs: revs[..2].to_vec(), ..ir.spaces[1].clone() },
                    SpaceIR { revs: revs[2..].to_vec(), ..ir.spaces[2].clone() },
                ],
                blobs: vec![],
            };
            check_bytes(cx, &full.build(&BuildOpts::default()).bytes(), &exp)
        },
    ));
    v.push(Space::new(
        "content-graphs-3",
        "every directed graph of 3 outline nodes (element, group, element with table) with up to 2 ordered children each",
        move |ch, cx| {
            let kinds: Vec<usize> = (0..3).map(|_| ch.choose("kind", 3)).collect();
            let kids: Vec<Vec<usize>> = (0..3).map(|_| slots(ch, 3, 2)).collect();
            check1(cx, &graph(&kinds, &kids, &[0]))
        },
    ));
    v.push(Space::new(
        "content-graphs-4",
        "every directed graph of 4 outline nodes (quick: elements and groups by index parity; thorough: any) with up to 2 (quick: 1 or 2) ordered children each",
        move |ch, cx| {
            let kinds: Vec<usize> = (0..4).map(|i| if th { ch.choose("kind", 2) * 2 } else { i % 2 }).collect();
            let kids: Vec<Vec<usize>> = (0..4).map(|i| slots(ch, 4, if th || i < 2 { 2 } else { 1 })).collect();
            check1(cx, &graph(&kinds, &kids, &[0]))
        },
    ));
    v.push(Space::new(
        "toc-graphs",
        "every directed graph of 3 (thorough 4) table-of-contents containers with up to 2 ordered children each, each named or not",
        move |ch, cx| {
            let n = if th { 4 } else { 3 };
            let leaf: Vec<bool> = (0..n).map(|_| ch.flag("named")).collect();
            let kids: Vec<Vec<usize>> = (0..n).map(|_| slots(ch, n, 2)).collect();
            check_toc(cx, &toc_graph(&kids, &leaf))
        },
    ));
    v.push(Space::new(
        "deep-content",
        "outline nests following 14 patterns of elements, groups and tables, every depth up to 110 and 23 depths up to 40000",
        move |ch, cx| {
            let pats: [&[usize]; 14] = [
                &[0], &[1], &[2], &[0, 1], &[1, 0], &[0, 2], &[2, 0], &[0, 0, 1], &[1, 1, 0], &[2, 2, 0], &[0, 1, 0, 2],
                &[2, 0, 1], &[0, 1, 1, 1], &[2, 0, 0, 1],
            ];
            let pat = ch.pick("pattern", &pats);
            let d = depth(ch, 110);
            cx.mem_slack = 256 << 20;
            check1(cx, &nest(pat, d))
        },
    ));
    v.push(Space::new("deep-toc", "table-of-contents chains of every depth up to 110 and 23 depths up to 40000, ending in a name, nothing or a cycle", |ch, cx| {
        let end = ch.choose("end", 3);
        let d = depth(ch, 110);
        let mut kids: Vec<Vec<usize>> = (0..d).map(|i| vec![i + 1]).collect();
        kids.push(if end == 2 { vec![d / 2] } else { vec![] });
        let mut leaf = vec![false; d + 1];
        leaf[d] = end == 0;
        cx.mem_slack = 256 << 20;
        check_toc(cx, &toc_graph(&kids, &leaf))
    }));
    v.push(Space::new(
        "deep-property-sets",
        "property sets nested by each of the 8 period-3 patterns of single sets and lists, every depth up to 110 and 23 depths up to 40000, on a used or unused property; lists of 1 or (truncated) 4 billion sets",
        move |ch, cx| {
            let pat = ch.choose("pattern", 8);
            let width = *ch.pick("width", &[1u32, u32::MAX]);
            let which = ch.choose("holder", 3);
            let d = depth(ch, 110);
            let mut ir = para_page(2, "x");
            let v = nested_sets(pat, d, width);
            cx.mem_slack = 256 << 20;
            let base = expect_section(&ir, NAME);
            match which {
                0 => ir.obj(1, xo(PAGE)).props.push(Prop::new(0x7001, v)),
                1 => ir.obj(0, xo(SEC)).props.insert(0, Prop::new(0x7001, v)),
                _ => {
                    let o = ir.spaces[1].revs[0].groups[0].objs.iter_mut().find(|o| o.jcid == jc::RichTextNode).unwrap();
                    o.props.push(Prop::new(0x7001, v));
                }
            }
            let broken = width != 1 && pat & if d >= 3 { 7 } else { (1 << d) - 1 } != 0;
            let exp = if broken {
                Err(X::Err)
            } else if d > 50 {
                Err(X::Any)
            } else {
                base
            };
            check_bytes(cx, &ir.build(&BuildOpts::default()).bytes(), &exp)
        },
    ));
    v.push(Space::new("deep-revisions", "revision chains of every length up to 110 and 14 lengths up to 5000, open or cyclic", |ch, cx| {
        let cyc = ch.flag("cycle");
        let n = {
            let k = ch.choose("length", 110 + 20);
            if k < 110 { k + 1 } else { DEEP[k - 110] }
        };
        let mut base: Vec<usize> = (0..n).map(|i| if i == 0 { n } else { i - 1 }).collect();
        if cyc {
            base[0] = n / 2;
        }
        let (pk, exp) = chain(&base, n - 1, false);
        cx.mem_slack = 256 << 20;
        check_bytes(cx, &pk.bytes(), &exp)
    }));
    v.push(Space::new(
        "shared-content",
        "ladders of 1..=60 levels in which every node refers to the next one 2 or 3 times, for 6 kinds of nodes",
        move |ch, cx| {
            let kind = ch.choose("kind", 6);
            let w = 2 + ch.choose("width", 2);
            let d = 1 + ch.choose("levels", 60);
            cx.mem_slack = 512 << 20;
            if kind == 5 {
                let mut kids: Vec<Vec<usize>> = (0..d).map(|i| vec![i + 1; w]).collect();
                kids.push(vec![]);
                let mut leaf = vec![false; d + 1];
                leaf[d] = true;
                return check_toc(cx, &toc_graph(&kids, &leaf));
            }
            let kinds: Vec<usize> =
                (0..=d).map(|i| [0, 1, 2, i % 2, [0, 2][i % 2]][kind]).collect();
            let mut kids: Vec<Vec<usize>> = (0..d).map(|i| vec![i + 1; w]).collect();
            kids.push(vec![]);
            check1(cx, &graph(&kinds, &kids, &[0]))
        },
    ));
    v.push(Space::new(
        "shared-rows",
        "tables naming one row 1..=64 times, holding one cell 1..=64 times, holding one element 1..=8 times",
        move |ch, cx| {
            let (r, c, e) = (1 << ch.choose("rows", 7), 1 << ch.choose("cells", 7), 1 << ch.choose("elements", 4));
            let mut b = B::new();
            let t = b.para("x");
            let el = b.element(1, &[t], &[]);
            let cl = b.cell(&vec![el; e]);
            let ro = b.row(&vec![cl; c]);
            let tb = b.table(&vec![ro; r], r as u32, c as u32);
            let o = b.wrap(&[tb]);
            cx.mem_slack = 512 << 20;
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(Space::new(
        "directory-cycles",
        "a notebook naming 1..=3 entries that are links to its own directory, a parent, a sibling group, itself or each other, nested 0..=2 groups deep",
        move |ch, cx| {
            let deep = ch.choose("nesting", 3);
            let n = 1 + ch.choose("entries", 3);
            let root = cx.scratch_dir().join("cyc");
            let _ = std::fs::remove_dir_all(&root);
            let mut dir = root.join("nb");
            std::fs::create_dir_all(&dir).unwrap();
            let top = dir.join("Open Notebook.onetoc2");
            for i in 0..deep {
                let name = format!("G{i}");
                std::fs::write(dir.join("Open Notebook.onetoc2"), toc_flat(&[(&name, 1)]).build(&BuildOpts::default()).bytes()).unwrap();
                dir = dir.join(name);
                std::fs::create_dir_all(&dir).unwrap();
            }
            let names = ["L0", "L1", "L2"];
            let mut bad_link = false;
            for i in 0..n {
                let k = ch.choose("target", 8);
                let to = match k {
                    0 => PathBuf::from("."),
                    1 => dir.clone(),
                    2 => PathBuf::from(".."),
                    3 => PathBuf::from(names[i]),
                    4 => PathBuf::from(names[(i + 1) % n]),
                    5 => PathBuf::from("./L0/.."),
                    6 => PathBuf::from(format!("../{}", dir.file_name().unwrap().to_str().unwrap())),
                    _ => root.join("nb"),
                };
                let _ = &mut bad_link;
                std::os::unix::fs::symlink(&to, dir.join(names[i])).unwrap();
                cx.mix(&[k as u8, i as u8]);
            }
            cx.mix(&[deep as u8, n as u8]);
            let l: Vec<(&str, u32)> = names[..n].iter().map(|x| (*x, 1)).collect();
            std::fs::write(dir.join("Open Notebook.onetoc2"), toc_flat(&l).build(&BuildOpts::default()).bytes()).unwrap();
            let got = parse_nb(cx, &top, 5000)?;
            cx.outcome = got_hash(&got);
            // every entry is a cyclic or escaping link: following one is never fine
            if got.is_ok() {
                return bad("accepted cycle", "a notebook that contains itself was accepted");
            }
            Ok(())
        },
    ));
    v.push(Space::new("deep-directories", "section groups nested 1..=40, 100, 500, 1000 and 1900 directories deep", |ch, cx| {
        let d = {
            let k = ch.choose("depth", 44);
            if k < 40 { k + 1 } else { [100, 500, 1000, 1900][k - 40] }
        };
        cx.mix(&(d as u64).to_le_bytes());
        let root = cx.scratch_dir().join("deep");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
        let toc = toc_flat(&[("g", 1)]).build(&BuildOpts::default()).bytes();
        let leaf = toc_flat(&[]).build(&BuildOpts::default()).bytes();
        let f = "t.onetoc2";
        let mut cur = root.clone();
        let mut made = 0;
        for i in 0..=d {
            if cur.as_os_str().len() + f.len() + 4 > 4000 {
                break;
            }
            made = i;
            std::fs::write(cur.join(f), if i == d { &leaf } else { &toc }).unwrap();
            if i < d {
                cur.push("g");
                std::fs::create_dir(&cur).unwrap();
            }
        }
        let top = root.join(f);
        let r = guarded(cx, 1 << 20, || {
            onenote_parser::Parser::new().parse_notebook(&top).map(|n| {
                // measured without recursion
                let mut k = 0;
                let mut e = n.entries().first();
                while let Some(onenote_parser::section::SectionEntry::SectionGroup(g)) = e {
                    k += 1;
                    e = g.entries().first();
                }
                k
            })
        });
        let _ = remove_deep(&root);
        match r? {
            Ok(k) => {
                cx.ok += 1;
                cx.outcome = k;
                if k as usize != d {
                    return bad("deep groups lost", format!("{d} nested groups were created, {k} returned"));
                }
            }
            Err(e) => {
                cx.err += 1;
                cx.outcome = 99_999;
                if made == d && d <= 40 {
                    return bad("deep groups refused", format!("{d} nested groups: {e}"));
                }
            }
        }
        Ok(())
    }));
    v
}
fn remove_deep(p: &Path) -> std::io::Result<()> {
    std::fs::remove_dir_all(p)
}
