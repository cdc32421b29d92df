//! Images and attachments: exactly their own bytes and metadata.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

/// bytes in which every position is distinguishable from its neighbours
fn fill(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(2_654_435_761).to_le_bytes()[3] ^ seed ^ (i >> 8) as u8).collect()
}
fn container(b: &mut B, x: Ex) -> Ex {
    let ids = [p::PictureContainer & 0x3ffffff, p::EmbeddedFileContainer & 0x3ffffff];
    // an embedded file may have both; its own data is in the latter
    let l = &b.o(x).props;
    for id in [ids[1], ids[0]] {
        if let Some(Prop { v: PV::Oid(c), .. }) = l.iter().find(|q| q.id == id) {
            return *c;
        }
    }
    unreachable!()
}
fn show(mut b: B, items: &[Ex], on_page: bool) -> StoreIR {
    if on_page {
        return section1(b, items, None);
    }
    let o = b.wrap(items);
    section1(b, &[o], None)
}
const LAYOUTS: [Layout; 2] = [Layout::Package, Layout::RevLegacy];

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("file", &[jc::ImageNode, jc::EmbeddedFileNode, jc::EmbeddedFileContainer, jc::PictureContainer, jc::XpsContainer], t == Tier::Thorough));
    let nmax = if deep { 40_000usize } else { 2_100 };
    v.push(Space::new(
        "every-size",
        format!("an image and an attachment each with every size of data from 0 to {nmax} bytes, in both container layouts"),
        move |ch, cx| {
            let n = ch.choose("size", nmax + 1);
            let layout = *ch.pick("layout", &LAYOUTS);
            let mut b = B::new();
            let i = b.image(Some(fill(n, 0)));
            let f = b.file("a.bin", fill(n, 0x80));
            let ir = show(b, &[i, f], false);
            check_store(cx, &ir, &BuildOpts { layout, ..Default::default() }, &Opts::default())
        },
    ));
    let pmax = if deep { 25u32 } else { 22 };
    v.push(Space::new(
        "boundary-sizes",
        format!("sizes within 2 of 2^k for k = 11..={pmax}, stored as image, as attachment, or as the first of two, with each permitted width of the length field"),
        move |ch, cx| {
            let k = 11 + ch.choose("power", pmax as usize - 10);
            let n = ((1usize << k) + ch.choose("offset", 5)) - 2;
            let how = ch.choose("how", 3);
            let wide = if k > 16 && !deep { *ch.pick("width", &[0u8, 9]) } else { *ch.pick("width", &[0u8, 2, 3, 4, 5, 6, 7, 9]) };
            let mut b = B::new();
            let mut l = vec![];
            if how != 1 {
                l.push(b.image(Some(fill(n, 3))));
            }
            if how == 1 {
                l.push(b.file("big", fill(n, 3)));
            }
            if how == 2 {
                l.push(b.file("small", vec![9, 8, 7]));
            }
            let ir = show(b, &l, true);
            check_store(cx, &ir, &BuildOpts::default(), &Opts { cu_min: wide, ..Default::default() })
        },
    ));
    let k3 = if deep { 4 } else { 3 };
    v.push(Space::new(
        "assignment",
        format!("up to {k3} items, each an image or an attachment (or the previous item's container shared), each bound to one of four stored blobs (alike in length, one a prefix of another, one empty) or to none, with the blob elements stored first or last, forwards or backwards"),
        move |ch, cx| {
            let mut b = B::new();
            let mut blobs = vec![b.blob(vec![1, 2, 3, 4]), b.blob(vec![1, 2, 3, 5]), b.blob(vec![1, 2, 3]), b.blob(vec![])];
            let n = 1 + ch.choose("items", k3);
            let mut l: Vec<(Ex, bool)> = vec![];
            for i in 0..n {
                let img = ch.flag("image");
                let x = if img { b.image(Some(vec![])) } else { b.file(&format!("f{i}"), vec![]) };
                let c = container(&mut b, x);
                b.blobs.pop();
                let share = i > 0 && l[i - 1].1 == img && ch.flag("shares the previous container");
                if share {
                    let pc = container(&mut b, l[i - 1].0);
                    b.set(x, if img { p::PictureContainer } else { p::EmbeddedFileContainer }, PV::Oid(pc));
                    b.objs.retain(|o| o.id != c);
                } else {
                    let k = ch.choose("blob", 5);
                    b.o(c).blob = blobs.get(k).copied();
                }
                l.push((x, img));
            }
            blobs.clear();
            let order = ch.choose("stored order", 4);
            let items: Vec<Ex> = l.iter().map(|x| x.0).collect();
            let mut ir = show(b, &items, false);
            if order & 1 == 1 {
                ir.blobs.reverse();
            }
            let exp = expect_section(&ir, NAME);
            let mut pk = ir.build(&BuildOpts::default());
            if order & 2 == 2 {
                let (x, mut y): (Vec<Elem>, Vec<Elem>) = pk.elems.drain(..).partition(|e| matches!(e.body, Body::Blob(_)));
                pk.elems = x;
                pk.elems.append(&mut y);
            }
            check_bytes(cx, &pk.encode(&Opts::default()).0, &exp)
        },
    ));
    v.push(Space::new(
        "missing-data",
        "an image and two attachments with any subset of the three stored blobs, of the three containers and of the containers' data references missing, in the newest or in an older revision; a blob also under an identifier differing in one bit",
        move |ch, cx| {
            let mut b = B::new();
            let xs = [b.image(Some(vec![1; 9])), b.file("f", vec![2; 9]), b.file("g", vec![3; 8])];
            let cs: Vec<Ex> = xs.iter().map(|x| container(&mut b, *x)).collect();
            let mut near = None;
            for k in 0..3 {
                match ch.choose("fault", 5) {
                    1 => {
                        let id = b.o(cs[k]).blob.unwrap();
                        b.blobs.retain(|x| x.0 != id);
                    }
                    2 => b.objs.retain(|o| o.id != cs[k]),
                    3 => b.o(cs[k]).blob = None,
                    4 => near = Some(k),
                    _ => {}
                }
            }
            if let Some(k) = near {
                // the stored blob's identifier is one bit off
                let id = b.o(cs[k]).blob.unwrap();
                let bit = ch.choose("bit", 128 + 17);
                let mut o = id;
                if bit < 128 { o.g[bit / 8] ^= 1 << (bit % 8) } else { o.n ^= 1 << (bit - 128) }
                for x in &mut b.blobs {
                    if x.0 == id {
                        x.0 = o;
                    }
                }
            }
            let ir = show(b, &xs, ch.flag("on the page"));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "blob-identifiers",
        "two blobs whose identifiers differ in each single bit (128 of the identifier, 32 of the number), or equal an object's, a group's or a revision's identifier, bound to two items either way round",
        move |ch, cx| {
            let mut b = B::new();
            let i = b.image(Some(vec![1, 1, 1]));
            let f = b.file("f", vec![2, 2, 2]);
            let (ci, cf) = (container(&mut b, i), container(&mut b, f));
            let x = Ex::new([0x37; 16], 0x11);
            let k = ch.choose("bit", 160 + 5);
            let y = if k < 128 {
                let mut g = x.g;
                g[k / 8] ^= 1 << (k % 8);
                Ex::new(g, x.n)
            } else if k < 160 {
                Ex::new(x.g, x.n ^ 1 << (k - 128))
            } else {
                // identifiers of other kinds of things
                [i, ci, f, xo(PAGE), Ex::new(GREV, 2000)][k - 160]
            };
            let (a, c) = if ch.flag("swapped") { (y, x) } else { (x, y) };
            b.o(ci).blob = Some(a);
            b.o(cf).blob = Some(c);
            b.blobs = vec![(a, vec![1, 1, 1]), (c, vec![2, 2, 2])];
            let ir = show(b, &[i, f], true);
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "groups",
        "an image and an attachment whose node and container are each stored in one of three object groups of one revision, or of two revisions, blob references included, in every assignment, with older data for the containers of the newest two",
        move |ch, cx| {
            let mut b = B::new();
            let i = b.image(Some(fill(20, 1)));
            let f = b.file("f", fill(20, 2));
            let ids = [i, container(&mut b, i), f, container(&mut b, f)];
            let old = [b.blob(fill(20, 3)), b.blob(fill(21, 4))];
            let mut ir = show(b, &[i, f], false);
            let two = ch.flag("two revisions");
            let r = &mut ir.spaces[1].revs;
            let mut rest = std::mem::take(&mut r[0].groups[0].objs);
            let mut gs: Vec<Vec<Obj>> = vec![vec![], vec![], vec![]];
            for id in ids {
                let k = ch.choose("group", 3);
                let at = rest.iter().position(|o| o.id == id).unwrap();
                gs[k].push(rest.remove(at));
            }
            let first = ch.choose("the others' group", 3);
            gs[first].extend(rest);
            let mk = |k: usize, objs: Vec<Obj>| GroupIR { id: eid(7700 + k as u32), objs };
            let mut it = gs.into_iter();
            let (a, bb, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
            if two {
                let mut older: Vec<Obj> = bb;
                let newer: Vec<Obj> = a;
                // the older revision has other data for what the newer one rewrites
                for (k, id) in [ids[1], ids[3]].into_iter().enumerate() {
                    if let Some(o) = newer.iter().find(|o| o.id == id) {
                        let mut o = o.clone();
                        o.blob = Some(old[k]);
                        older.push(o);
                    }
                }
                let base = Ex::new(GREV, 9_001);
                r[0].base = base;
                r[0].groups = vec![mk(0, newer)];
                r.push(RevIR { rev: base, manifest: eid(9_001), base: Ex::NIL, groups: vec![mk(1, older), mk(2, c)], roots: vec![] });
            } else {
                r[0].groups = vec![mk(0, a), mk(1, bb), mk(2, c)];
            }
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "pages",
        "two pages using the same object identifiers with different, equal, swapped or missing data, in both layouts",
        move |ch, cx| {
            let mut all = vec![];
            let mut blobs = vec![(Ex::new(GBLOB, 1), fill(7, 1)), (Ex::new(GBLOB, 2), fill(7, 2)), (Ex::new(GBLOB, 3), vec![])];
            for n in [2, 3] {
                let mut b = B::new();
                let i = b.image(Some(vec![]));
                let f = b.file("f", vec![]);
                for x in [i, f] {
                    let c = container(&mut b, x);
                    let k = ch.choose("blob", 4);
                    b.o(c).blob = blobs.get(k).map(|x| x.0);
                }
                b.blobs.clear();
                let o = b.wrap(&[i, f]);
                all.push(page_space(n, b, &[o], None).0);
            }
            if ch.flag("blob missing") {
                blobs.remove(ch.choose("which", 3));
            }
            let mut spaces = vec![section_root(&[vec![cell(2), cell(3)]])];
            spaces.extend(all);
            let ir = StoreIR { schema: C.section, spaces, blobs };
            let layout = *ch.pick("layout", &LAYOUTS);
            check_store(cx, &ir, &BuildOpts { layout, ..Default::default() }, &Opts::default())
        },
    ));
    v.push(Space::new(
        "declared-extras",
        "blob references that themselves carry object and cell references, a wrong partition number, or other declared counts, for an image and an attachment",
        move |ch, cx| {
            let mut b = B::new();
            let i = b.image(Some(vec![1, 2, 3]));
            let f = b.file("f", vec![4, 5]);
            let ir = show(b, &[i, f], true);
            let mut pk = ir.build(&BuildOpts::default());
            let (rs, cs) = (ch.choose("references", 4), ch.choose("cells", 4));
            let decl = *ch.pick("declared", &[0u64, 1, 7, 1 << 40]);
            let mut exp = expect_section(&ir, NAME);
            let part = *ch.pick("partition", &[2u64, 2, 3, 0]);
            for e in &mut pk.elems {
                if let Body::Group { decls, data, .. } = &mut e.body {
                    for d in decls {
                        if let Decl::Blob { part: q, refs, cells, .. } = d {
                            (*refs, *cells, *q) = (decl, decl / 2, part);
                        }
                    }
                    for d in data {
                        if let Dat::Blob { refs, cells, .. } = d {
                            *refs = (0..rs as u32).map(xo).collect();
                            *cells = (0..cs as u32).map(cell).collect();
                        }
                    }
                }
            }
            if part != 2 {
                // not the data of anything
                exp = Err(crate::model::X::Err);
            }
            check_bytes(cx, &pk.encode(&Opts::default()).0, &exp)
        },
    ));
    v.push(Space::new(
        "container-kinds",
        "the container of an image or of an attachment (data bound, or not) of every recognised object kind and of none",
        move |ch, cx| {
            let mut b = B::new();
            let img = ch.flag("image");
            let x = if img { b.image(Some(vec![1, 2, 3])) } else { b.file("f", vec![1, 2]) };
            let c = container(&mut b, x);
            let all: Vec<u32> = jc::ALL.iter().copied().chain([0, 0xffff_ffff, jc::PictureContainer ^ 1, jc::EmbeddedFileContainer ^ 0x8_0000]).collect();
            b.o(c).jcid = *ch.pick("kind", &all);
            if ch.flag("extension") {
                b.set(c, p::PictureFileExtension, PV::s(".x"));
            }
            if ch.flag("no data") {
                b.o(c).blob = None;
            }
            let ir = show(b, &[x], ch.flag("on the page"));
            check1(cx, &ir)
        },
    ));
    let pairs = |ch: &mut Ch, b: &mut B, x: Ex, keep: usize| {
        // drop one or two properties, keep only one or two, or shuffle
        let n = b.o(x).props.len();
        let i = ch.choose("first", n);
        let j = ch.choose("second", n);
        match keep {
            0 => {
                let ps = std::mem::take(&mut b.o(x).props);
                b.o(x).props = ps.into_iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|q| q.1).collect();
            }
            1 => {
                let ps = std::mem::take(&mut b.o(x).props);
                b.o(x).props = ps.into_iter().enumerate().filter(|(k, _)| *k == i || *k == j).map(|q| q.1).collect();
            }
            2 => b.o(x).props.swap(i, j),
            _ => {
                // one value stored under the other's name: each keeps its own meaning
                let ps = &mut b.o(x).props;
                let (a, c) = (ps[i].v.clone(), ps[j].v.clone());
                ps[i].v = c;
                ps[j].v = a;
            }
        }
    };
    v.push(Space::new(
        "metadata",
        "an image and an attachment with every property present: any one or two dropped, kept alone, stored in exchanged places, or with exchanged values; next to a second item of each kind",
        move |ch, cx| {
            let mut b = B::new();
            let i = full_image(&mut b, vec![1, 2, 3], None);
            let f = full_file(&mut b, vec![4], None);
            let i2 = b.image(None);
            let f2 = b.file("zz", vec![5, 6]);
            let img = ch.flag("image");
            let how = ch.choose("change", 4);
            pairs(ch, &mut b, if img { i } else { f }, how);
            let ir = show(b, &[i2, i, f, f2], ch.flag("on the page"));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "metadata-values",
        "every numeric attribute of images and attachments at 12 values each, every text attribute at 10 lengths, alone and with all the others present",
        move |ch, cx| {
            let mut b = B::new();
            let img = ch.flag("image");
            let full = ch.flag("with the others");
            let x = match (img, full) {
                (true, true) => full_image(&mut b, vec![1], None),
                (true, false) => b.image(Some(vec![1])),
                (false, true) => full_file(&mut b, vec![1], None),
                _ => b.file("n", vec![1]),
            };
            let floats = [p::LayoutMaxWidth, p::LayoutMaxHeight, p::OffsetFromParentHoriz, p::OffsetFromParentVert, p::PictureWidth, p::PictureHeight];
            let words = [p::DisplayedPageNumber, p::LastModifiedTime, p::LanguageId];
            let texts = [p::ImageAltText, p::ImageFilename, p::RichEditTextUnicode, p::WzHyperlinkUrl, p::EmbeddedFileName, p::SourceFilepath, p::PictureFileExtension];
            let k = ch.choose("attribute", floats.len() + words.len() + texts.len());
            if k < floats.len() + words.len() {
                let id = if k < floats.len() { floats[k] } else { words[k - floats.len()] };
                let v = *ch.pick("value", &[0u32, 1, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7f7f_ffff, 1 << 23, 0x0100_0000, 0x00ff_00ff, u32::MAX]);
                b.set(x, id, PV::U32(v));
            } else {
                let id = texts[k - floats.len() - words.len()];
                let n = *ch.pick("length", &[0usize, 1, 2, 3, 63, 64, 127, 128, 255, 5000]);
                let s: String = (0..n).map(|i| char::from_u32(0x3b1 + (i % 700) as u32).unwrap()).collect();
                let at = if id == p::PictureFileExtension && img { container(&mut b, x) } else { x };
                b.set(at, id, PV::s(&s));
            }
            let ir = show(b, &[x], ch.flag("on the page"));
            check1(cx, &ir)
        },
    ));
    let ne = if deep { 5 } else { 4 };
    v.push(Space::new(
        "embeds",
        format!("an image with every list of up to {ne} embeds drawn from three (one with a type, one without, one lacking its address) and one missing, with or without data"),
        move |ch, cx| {
            let mut b = B::new();
            let i = b.image(ch.flag("data").then(|| vec![1, 2]));
            let pool = [
                b.add(jc::IFrameNode, vec![pr(p::ImageEmbedType, PV::U32(7)), prs(p::ImageEmbeddedUrl, "https://a")]),
                b.add(jc::IFrameNode, vec![prs(p::ImageEmbeddedUrl, "")]),
                b.add(jc::IFrameNode, vec![pr(p::ImageEmbedType, PV::U32(9))]),
                xo(777_777),
            ];
            let n = ch.choose("embeds", ne + 1);
            let l = (0..n).map(|_| *ch.pick("embed", &pool)).collect();
            b.set(i, p::ContentChildNodes, PV::Oids(l));
            let ir = show(b, &[i], ch.flag("on the page"));
            check1(cx, &ir)
        },
    ));
    v.push(Space::new(
        "many",
        "up to 60 items alternating between images and attachments, each with its own data, blobs stored forwards or backwards",
        move |ch, cx| {
            let n = ch.choose("items", 61);
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|k| {
                    let d = fill(k * 3, k as u8);
                    if k % 2 == 0 { b.image(Some(d)) } else { b.file(&format!("{k}"), d) }
                })
                .collect();
            let mut ir = show(b, &l, ch.flag("on the page"));
            if ch.flag("backwards") {
                ir.blobs.reverse();
            }
            check1(cx, &ir)
        },
    ));
    v.push(super::c17::strings(&["alt text", "image file name", "image text", "hyperlink", "extension", "iframe url", "file name", "source path"], if deep { 3 } else { 2 }));
    v.push(Space::new(
        "contents",
        "an image and an attachment whose data is any of 16 beginnings (zeros, byte-order marks, container and image signatures, text), 0..=24 further bytes and any of 9 endings (zeros, line breaks, 0xff, a repeated signature)",
        move |ch, cx| {
            const HEAD: [&[u8]; 16] = [
                b"", &[0], &[0; 8], &[0; 16], &[0xef, 0xbb, 0xbf], &[0xff, 0xfe], &[0xfe, 0xff], &[0xff, 0xd8, 0xff], b"\x89PNG\r\n\x1a\n", b"GIF89a", b"PK\x03\x04",
                b"\x1f\x8b\x08", b"%PDF-", b"\r\n", &[0xe7, 0x16, 0xe3, 0xbd, 0x65, 0x26, 0x11, 0x45], &[0xff; 8],
            ];
            const TAIL: [&[u8]; 9] = [b"", &[0], &[0; 4], &[0; 8], &[0; 17], b"\r\n", &[0xff], &[0xff; 8], &[0xa4, 0xc4, 0x8d, 0x4d, 0x0b, 0x7a, 0x9e, 0xac]];
            let mut d = ch.pick("head", &HEAD).to_vec();
            let n = ch.choose("middle", 25);
            d.extend(fill(n, 5));
            d.extend_from_slice(ch.pick("tail", &TAIL));
            let mut b = B::new();
            let i = b.image(Some(d.clone()));
            d.reverse();
            let f = b.file("a.bin", d);
            check1(cx, &show(b, &[i, f], true))
        },
    ));
    v.push(super::c16::interference(&[3, 4]));
    v.push(super::c16::foreign(&[3, 4], deep));
    v.push(super::scale::space("C15", t));
    v
}
