//! Note tags: each tag keeps its own state and definition.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq)]
enum Host {
    Text,
    Table,
    Image,
    File,
}
const HOSTS: [Host; 4] = [Host::Text, Host::Table, Host::Image, Host::File];
fn host(b: &mut B, h: Host) -> Ex {
    match h {
        Host::Text => rich_text(b),
        Host::Table => full_table(b, None),
        Host::Image => full_image(b, vec![1, 2, 3], None),
        Host::File => full_file(b, vec![4, 5], None),
    }
}
/// definitions differing in every attribute
fn defs(b: &mut B) -> Vec<Ex> {
    let d1 = full_def(b, "To Do", 3);
    let d2 = b.tag_def("Idea \u{1F4A1}", 21);
    b.set(d2, p::NoteTagPropertyStatus, PV::U32(0xf0a));
    b.set(d2, p::ActionItemType, PV::U16(7));
    b.set(d2, p::NoteTagTextColor, PV::U32(0x0001_0203));
    let d3 = b.tag_def("", 0);
    b.set(d3, p::ActionItemType, PV::U16(105));
    b.set(d3, p::NoteTagHighlightColor, PV::U32(0x00a0_b0c0));
    vec![d1, d2, d3]
}
fn page(mut b: B, x: Ex, as_page: bool) -> StoreIR {
    if as_page {
        return section1(b, &[x], None);
    }
    let o = b.wrap(&[x]);
    section1(b, &[o], None)
}
fn on_page(h: Host, ch: &mut Ch) -> bool {
    matches!(h, Host::Image | Host::File) && ch.flag("directly on the page")
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::edits("tag", &[jc::NoteTagSharedDefinitionContainer], t == Tier::Thorough));
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "tag-lists",
        format!("every list of up to {n} tags, each of 5 definitions (none or one of three, or stored without the property), 4 states and 2 completion times, on each of 4 kinds of item; under a compact-id scheme rotating with the list"),
        move |ch, cx| {
            let h = *ch.pick("item", &HOSTS);
            let mut b = B::new();
            let ds = defs(&mut b);
            let x = host(&mut b, h);
            let len = ch.choose("tags", n + 1);
            let mut sets = vec![];
            let mut k = 0;
            for i in 0..len {
                let d = ch.choose("definition", 4);
                let s = *ch.pick("status", &[0u16, 1, 6, 7]);
                let done = ch.flag("completed");
                k += d;
                sets.push(tagset(if d == 0 { None } else { Some(ds[d - 1]) }, s, 100 + i as u32, done.then_some(1000 + i as u32)));
            }
            b.set(x, p::NoteTags, tags(sets));
            let cid = super::c07::CIDS[k % 4];
            let ir = page(b, x, false);
            check_store(cx, &ir, &BuildOpts { oo: ObjOpts { cid, osid_stream: false, ctx_stream: false, nil: 0 }, ..Default::default() }, &Opts::default())
        },
    ));
    v.push(Space::new(
        "placement",
        "a two-tag list inserted at every position among the item's other properties, in every order of the tag's own properties, for each kind of item and 4 compact-id schemes",
        move |ch, cx| {
            let h = *ch.pick("item", &HOSTS);
            let mut b = B::new();
            let ds = defs(&mut b);
            let x = host(&mut b, h);
            let perm = ch.perm("order", 4);
            let s1 = tagset(Some(ds[1]), 5, 9, Some(10));
            let s1 = perm.iter().map(|i| s1[*i].clone()).collect();
            let s2 = tagset(Some(ds[0]), 2, 8, None);
            let ps = &mut b.o(x).props;
            let at = ch.choose("position", ps.len() + 1);
            ps.insert(at, pr(p::NoteTags, tags(vec![s1, s2])));
            let cid = *ch.pick("ids", &super::c07::CIDS);
            let pg = on_page(h, ch);
            let ir = page(b, x, pg);
            check_store(cx, &ir, &BuildOpts { oo: ObjOpts { cid, osid_stream: false, ctx_stream: false, nil: 0 }, ..Default::default() }, &Opts::default())
        },
    ));
    v.push(Space::new(
        "unknown-inside",
        "an unknown property of each of 25 shapes (references, reference lists, nested lists included) at every position inside the first, second or third of three tags, on each kind of item",
        move |ch, cx| {
            let h = *ch.pick("item", &HOSTS);
            let mut b = B::new();
            let ds = defs(&mut b);
            let x = host(&mut b, h);
            let mut sets = vec![
                tagset(Some(ds[0]), 1, 1, None),
                tagset(Some(ds[1]), 2, 2, Some(3)),
                tagset(Some(ds[2]), 3, 4, None),
            ];
            let i = ch.choose("tag", 3);
            let at = ch.choose("position", sets[i].len() + 1);
            let k = super::c08::kinds();
            let q = ch.pick("shape", &k).clone();
            sets[i].insert(at, Prop::new(0x7000, q.clone()));
            let j = ch.choose("second tag", 4);
            if j < 3 && j != i {
                sets[j].insert(0, Prop::new(0x7000, q));
            }
            b.set(x, p::NoteTags, tags(sets));
            check1(cx, &page(b, x, false))
        },
    ));
    v.push(Space::new(
        "neighbours",
        "four tagged items of any kinds on one page, each with any of 4 tag lists, so that tags of one item never show up at another",
        move |ch, cx| {
            let mut b = B::new();
            let ds = defs(&mut b);
            let lists = [
                vec![],
                vec![tagset(Some(ds[0]), 1, 1, None)],
                vec![tagset(None, 2, 2, Some(7)), tagset(Some(ds[1]), 0, 3, None)],
                vec![tagset(Some(ds[2]), 4, 2, Some(9)), tagset(Some(ds[2]), 5, 3, None), tagset(Some(ds[0]), 3, 3, None)],
            ];
            let mut xs = vec![];
            for _ in 0..if deep { 4 } else { 3 } {
                let x = host(&mut b, *ch.pick("item", &HOSTS));
                let l = ch.pick("tags", &lists).clone();
                b.set(x, p::NoteTags, tags(l));
                xs.push(x);
            }
            let o = b.wrap(&xs);
            check1(cx, &section1(b, &[o], None))
        },
    ));
    v.push(Space::new(
        "nested",
        "tagged items inside table cells of tagged tables inside tagged outlines to depth 3, each level with one of 3 tag lists, and a tagged title paragraph",
        move |ch, cx| {
            let mut b = B::new();
            let ds = defs(&mut b);
            let lists = [
                vec![],
                vec![tagset(Some(ds[1]), 1, 1, None)],
                vec![tagset(None, 2, 2, Some(7)), tagset(Some(ds[0]), 0, 3, None)],
            ];
            let mut x = host(&mut b, *ch.pick("item", &HOSTS));
            b.set(x, p::NoteTags, tags(ch.pick("tags", &lists).clone()));
            for _ in 0..ch.choose("depth", 4) {
                let e = b.element(1, &[x], &[]);
                let c = b.cell(&[e]);
                let r = b.row(&[c]);
                x = b.table(&[r], 1, 1);
                b.set(x, p::NoteTags, tags(ch.pick("tags", &lists).clone()));
            }
            let tt = b.para("T");
            b.set(tt, p::NoteTags, tags(ch.pick("tags", &lists).clone()));
            let o = b.wrap(&[tt]);
            let ti = b.title(&[o]);
            let o = b.wrap(&[x]);
            check1(cx, &section1(b, &[o], Some(ti)))
        },
    ));
    v.push(Space::new(
        "flags",
        "all 4096 combinations of the 12 low definition flags with none, each or all of the 20 upper bits, all 16-bit status words and all 16-bit action types, on the second of two tags with other values on the first",
        move |ch, cx| {
            let mut b = B::new();
            let ds = defs(&mut b);
            let mut s = 2;
            match ch.choose("field", 3) {
                0 => {
                    // the bits above the defined ones mean nothing
                    let high = ch.choose("high bits", 22);
                    let v = match high {
                        0 => 0,
                        21 => !0xfffu32,
                        i => 1 << (11 + i),
                    };
                    b.set(ds[1], p::NoteTagPropertyStatus, PV::U32(v | ch.choose("value", 4096) as u32))
                }
                1 => s = ch.choose("value", 65536) as u16,
                _ => b.set(ds[1], p::ActionItemType, PV::U16(ch.choose("value", 65536) as u16)),
            }
            let x = b.image(None);
            b.set(x, p::NoteTags, tags(vec![tagset(Some(ds[0]), 5, 1, Some(3)), tagset(Some(ds[1]), s, 2, None)]));
            check1(cx, &section1(b, &[x], None))
        },
    ));
    v.push(Space::new(
        "faults",
        "a tag of three without its creation time, state, or with a definition that is missing, of another kind or incomplete, at any position on each kind of item: an error; a tag with only the required attributes: accepted",
        move |ch, cx| {
            let h = *ch.pick("item", &HOSTS);
            let mut b = B::new();
            let ds = defs(&mut b);
            let other = b.style();
            let x = host(&mut b, h);
            let mut sets = vec![
                tagset(Some(ds[0]), 1, 1, None),
                tagset(Some(ds[1]), 2, 2, Some(3)),
                tagset(Some(ds[2]), 3, 4, None),
            ];
            let i = ch.choose("tag", 3);
            let drop = |s: &mut Vec<Prop>, id: u32| s.retain(|q| q.id != id & 0x3ffffff);
            match ch.choose("fault", 10) {
                0 => drop(&mut sets[i], p::NoteTagCreated),
                1 => drop(&mut sets[i], p::ActionItemStatus),
                2 => {
                    drop(&mut sets[i], p::NoteTagDefinitionOid);
                    sets[i].push(pr(p::NoteTagDefinitionOid, PV::Oid(xo(777_777))));
                }
                3 => {
                    drop(&mut sets[i], p::NoteTagDefinitionOid);
                    sets[i].push(pr(p::NoteTagDefinitionOid, PV::Oid(other)));
                }
                4 => drop(&mut b.o(ds[i]).props, p::NoteTagLabel),
                5 => drop(&mut b.o(ds[i]).props, p::NoteTagShape),
                6 => drop(&mut b.o(ds[i]).props, p::NoteTagPropertyStatus),
                7 => drop(&mut b.o(ds[i]).props, p::ActionItemType),
                8 => {
                    drop(&mut sets[i], p::NoteTagDefinitionOid);
                    drop(&mut sets[i], p::NoteTagCompleted);
                }
                _ => {
                    drop(&mut b.o(ds[i]).props, p::NoteTagTextColor);
                    drop(&mut b.o(ds[i]).props, p::NoteTagHighlightColor);
                }
            }
            b.set(x, p::NoteTags, tags(sets));
            let pg = on_page(h, ch);
            check1(cx, &page(b, x, pg))
        },
    ));
    v.push(Space::new(
        "revisions",
        "two tags whose definitions were rewritten in any of 2 newer revisions, together with or without the tagged item",
        move |ch, cx| {
            let mut b = B::new();
            let ds = defs(&mut b);
            let x = host(&mut b, *ch.pick("item", &HOSTS));
            b.set(x, p::NoteTags, tags(vec![tagset(Some(ds[0]), 1, 1, None), tagset(Some(ds[1]), 0, 2, Some(5))]));
            let mut ir = page(b, x, false);
            for k in 1..3u32 {
                let mut objs = vec![];
                for (i, id) in [ds[0], ds[1], x].into_iter().enumerate() {
                    if ch.flag("rewritten") {
                        let mut o = ir.obj(1, id).clone();
                        if i < 2 {
                            o.set(p::NoteTagLabel, PV::s(&format!("v{k}")));
                            o.set(p::NoteTagShape, PV::U16(40 + k as u16 * 2 + i as u16));
                        } else {
                            o.set(p::NoteTags, tags(vec![tagset(Some(ds[1]), 4, k, Some(k)), tagset(Some(ds[0]), 3, 2, None)]));
                        }
                        objs.push(o);
                    }
                }
                let sp = &mut ir.spaces[1];
                let base = sp.revs[0].rev;
                let roots = if ch.flag("roots") { sp.revs[0].roots.clone() } else { vec![] };
                sp.revs.insert(
                    0,
                    RevIR {
                        rev: Ex::new(GREV, 5000 + k),
                        manifest: eid(5000 + 2 * k),
                        base,
                        groups: vec![GroupIR { id: eid(5001 + 2 * k), objs }],
                        roots,
                    },
                );
            }
            check1(cx, &ir)
        },
    ));
    v.push(super::c17::strings(&["tag label"], if deep { 3 } else { 2 }));
    v.push(super::c16::interference(&[7]));
    v.push(super::c16::foreign(&[7], deep));
    v.push(super::scale::space("C18", t));
    v
}
