//! Large counts: the guarantees hold however many entries, however long a value.
//!
//! Each space enumerates every combination of a construction (which list is
//! long) with every count of a fixed set around the widths a count, position or
//! length could be confined to.
use crate::enc::*;
use crate::explore::*;
use crate::ids::*;
use crate::model::*;
use crate::rich::*;
use crate::store::*;
use crate::util::*;

const QUICK: [usize; 14] = [127, 129, 255, 256, 257, 1023, 1025, 4095, 4096, 4097, 32769, 65535, 65536, 65537];
const HUGE: [usize; 36] = [
    127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8193, 16383, 16384, 16385, 32767,
    32768, 32769, 65535, 65536, 65537, 100_000, 131_071, 131_073, 262_145, 524_289, 1_048_575, 1_048_577,
];
/// around every bit of a stream's count from the ninth on
const STREAM: [usize; 17] = [
    255, 257, 1025, 4097, 65_535, 65_537, 131_073, 262_145, 1_048_577, 511, 2049, 8193, 16_385, 32_769, 524_289, 4_194_305, 8_388_609,
];
fn fits(l: &'static [usize], max: usize) -> &'static [usize] {
    &l[..l.iter().take_while(|n| **n <= max).count()]
}
type Make = fn(usize) -> StoreIR;
/// (what is long, greatest count, construction)
type Item = (&'static str, usize, Make);

fn last(b: &mut B) -> &mut Obj {
    b.objs.last_mut().unwrap()
}
fn page(b: B, items: &[Ex]) -> StoreIR {
    section1(b, items, None)
}
fn page_of_element(mut b: B, contents: &[Ex]) -> StoreIR {
    let o = b.wrap(contents);
    page(b, &[o])
}
/// an aperiodic sequence over `k` values
fn ap(i: usize, k: usize) -> usize {
    (i * i / 3 + i / 7 + i) % k
}
fn texts(b: &mut B, n: usize) -> Vec<Ex> {
    let st = b.style();
    (0..n).map(|i| b.text(&format!("t{i}"), st)).collect()
}
/// `n` UTF-16 units ending in a character outside the basic plane, every unit telling its place
fn long_text(n: usize) -> Vec<u8> {
    let mut v: Vec<u16> = (0..n).map(|i| 0x100 + (i % 0x5000) as u16).collect();
    if n >= 2 {
        v[n - 2] = 0xd83d;
        v[n - 1] = 0xde00;
    }
    // straddle the places at which a buffer could be split
    for p in [127usize, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535] {
        if p + 2 < n {
            v[p] = 0xd83d;
            v[p + 1] = 0xde01;
        }
    }
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn three_pages(list: Vec<u32>) -> StoreIR {
    let mut spaces = vec![section_root(&[list.into_iter().map(cell).collect()])];
    for n in 2..5 {
        let mut b = B::new();
        let x = b.para(&format!("page {n}"));
        let o = b.wrap(&[x]);
        spaces.push(page_space(n, b, &[o], None).0);
    }
    StoreIR { schema: C.section, spaces, blobs: vec![] }
}
fn many_pages(n: usize, per: usize) -> StoreIR {
    let ids: Vec<Cell> = (0..n as u32).map(|i| cell(10 + i)).collect();
    let series: Vec<Vec<Cell>> = ids.chunks(per).map(|c| c.to_vec()).collect();
    let mut spaces = vec![section_root(&series)];
    for i in 0..n as u32 {
        let (mut s, _) = page_space(10 + i, B::new(), &[], None);
        s.revs[0].groups[0].objs[2].set(p::PageLevel, PV::U32(i));
        spaces.push(s);
    }
    StoreIR { schema: C.section, spaces, blobs: vec![] }
}
fn in_front(mut ir: StoreIR, space: usize, id: Ex, v: PV) -> StoreIR {
    ir.obj(space, id).props.insert(0, Prop::new(0x7000, v));
    ir
}
/// a page with two elements holding texts and children, and a tagged paragraph
fn referring() -> (B, Vec<Ex>, Ex) {
    let mut b = B::new();
    let t = texts(&mut b, 5);
    let k = b.element(7, &[t[4]], &[]);
    let d = b.tag_def("d", 3);
    let e = b.element(1, &[t[2], t[0], t[3]], &[k]);
    b.set(t[0], p::NoteTags, tags(vec![tagset(None, 1, 1, None), tagset(Some(d), 2, 2, None)]));
    (b, t, e)
}

fn c07() -> Vec<Item> {
    vec![
        ("distinct contents of an element", 70_000, |n| {
            let mut b = B::new();
            let t = texts(&mut b, n);
            page_of_element(b, &t)
        }),
        ("repeated contents of an element", 131_073, |n| {
            let mut b = B::new();
            let t = texts(&mut b, 7);
            let c: Vec<Ex> = (0..n).map(|i| t[ap(i, 7)]).collect();
            page_of_element(b, &c)
        }),
        ("unknown references in front of an element's", 524_289, |n| {
            let (mut b, t, e) = referring();
            b.o(e).props.insert(0, Prop::new(0x7000, PV::Oids((0..n).map(|i| t[ap(i, 5)]).collect())));
            let o = b.outline(&[e]);
            page(b, &[o])
        }),
        ("unknown references in front of a tag's", 262_145, |n| {
            let (mut b, t, e) = referring();
            b.o(t[0]).props.insert(0, Prop::new(0x7000, PV::Oids((0..n).map(|i| t[ap(i, 5)]).collect())));
            let o = b.outline(&[e]);
            page(b, &[o])
        }),
        ("unknown references within lists in front of an element's", 131_073, |n| {
            let (mut b, t, e) = referring();
            let sets = (0..n).map(|i| vec![Prop::new(0x7100, PV::Oid(t[ap(i, 5)]))]).collect();
            b.o(e).props.insert(0, Prop::new(0x7000, PV::Vals(VALS, sets)));
            let o = b.outline(&[e]);
            page(b, &[o])
        }),
        ("unknown references behind an element's", 262_145, |n| {
            let (mut b, t, e) = referring();
            b.o(e).props.push(Prop::new(0x7000, PV::Oids((0..n).map(|i| t[ap(i, 5)]).collect())));
            let o = b.outline(&[e]);
            page(b, &[o])
        }),
        ("pages of a series, repeated", 4097, |n| three_pages((0..n).map(|i| 2 + ap(i, 3) as u32).collect())),
        ("unknown spaces in front of a series' pages", 524_289, |n| {
            let ir = three_pages(vec![3, 2, 4, 4]);
            in_front(ir, 0, xo(980_010), PV::Osids((0..n).map(|i| cell(2 + ap(i, 3) as u32)).collect()))
        }),
        ("unknown contexts in front of a series' pages", 262_145, |n| {
            let ir = three_pages(vec![3, 2, 4, 4]);
            in_front(ir, 0, xo(980_010), PV::Ctxs((0..n).map(|_| ctx0()).collect()))
        }),
        ("unknown objects in front of a series' pages", 262_145, |n| {
            let ir = three_pages(vec![3, 2, 4, 4]);
            in_front(ir, 0, xo(980_010), PV::Oids((0..n).map(|i| xo(1 + i as u32 % 9)).collect()))
        }),
    ]
}
fn c08() -> Vec<Item> {
    fn base() -> StoreIR {
        let mut b = B::new();
        let x = rich_text(&mut b);
        page_of_element(b, &[x])
    }
    fn text(ir: &StoreIR) -> Ex {
        ir.spaces[1].revs[0].groups[0].objs.iter().find(|o| o.jcid == jc::RichTextNode).unwrap().id
    }
    vec![
        ("bytes of an unknown value", 1 << 24, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Vec((0..n).map(|i| (i * 7) as u8).collect()))
        }),
        ("units of a known value", 1 << 22, |n| {
            let mut b = B::new();
            let t = b.para("");
            last(&mut b).set(p::RichEditTextUnicode, PV::Vec(long_text(n)));
            page_of_element(b, &[t])
        }),
        ("nil object references of an unknown property", (1 << 23) + 1, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Oids(vec![Ex::NIL; n]))
        }),
        ("object references of an unknown property", (1 << 20) + 1, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Oids(vec![xo(1); n]))
        }),
        ("object space references of an unknown property", (1 << 20) + 1, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Osids(vec![cell(3); n]))
        }),
        ("context references of an unknown property", (1 << 20) + 1, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Ctxs(vec![ctx0(); n]))
        }),
        ("sets of an unknown list", 262_145, |n| {
            let ir = base();
            let t = text(&ir);
            in_front(ir, 1, t, PV::Vals(VALS, vec![vec![Prop::new(1, PV::U16(3))]; n]))
        }),
        ("unknown properties in front", 65_500, |n| {
            let mut ir = base();
            let t = text(&ir);
            let ks = super::c08::kinds();
            let ps = &mut ir.obj(1, t).props;
            let own = std::mem::take(ps);
            *ps = (0..n).map(|i| Prop::new(0x0100_0000 + i as u32, ks[i % ks.len()].clone())).collect();
            ps.extend(own);
            ir
        }),
        ("unknown properties behind", 65_500, |n| {
            let mut ir = base();
            let t = text(&ir);
            let ks = super::c08::kinds();
            ir.obj(1, t).props.extend((0..n).map(|i| Prop::new(0x0100_0000 + i as u32, ks[i % ks.len()].clone())));
            ir
        }),
        ("unknown properties of a run's data", 65_500, |n| {
            let mut ir = base();
            let t = text(&ir);
            let o = ir.obj(1, t);
            let q = o.props.iter_mut().find(|x| x.id == p::TextRunData & 0x3ff_ffff).unwrap();
            let PV::Vals(_, sets) = &mut q.v else { unreachable!() };
            let mut u: Vec<Prop> = (0..n).map(|i| Prop::new(0x0100_0000 + i as u32, PV::U8(i as u8))).collect();
            u.append(&mut sets[1]);
            sets[1] = u;
            ir
        }),
    ]
}
fn c11() -> Vec<Item> {
    fn els(b: &mut B, n: usize) -> Vec<Ex> {
        (0..n).map(|i| b.element(i as u8, &[], &[])).collect()
    }
    vec![
        ("elements of an outline", 70_000, |n| {
            let mut b = B::new();
            let e = els(&mut b, n);
            let o = b.outline(&e);
            page(b, &[o])
        }),
        ("elements of a group", 70_000, |n| {
            let mut b = B::new();
            let e = els(&mut b, n);
            let g = b.group(1, &e);
            let o = b.outline(&[g]);
            page(b, &[o])
        }),
        ("children of an element", 70_000, |n| {
            let mut b = B::new();
            let e = els(&mut b, n);
            let g = b.element(1, &[], &e);
            let o = b.outline(&[g]);
            page(b, &[o])
        }),
        ("groups of an outline, each with an element", 70_000, |n| {
            let mut b = B::new();
            let e: Vec<Ex> = (0..n)
                .map(|i| {
                    let e = b.element(i as u8, &[], &[]);
                    b.group((i / 3) as u8, &[e])
                })
                .collect();
            let o = b.outline(&e);
            page(b, &[o])
        }),
        ("lists of an element", 70_000, |n| {
            let mut b = B::new();
            let ls: Vec<Ex> = (0..n)
                .map(|i| {
                    let l = b.list();
                    last(&mut b).set(p::ListRestart, PV::U32(i as u32));
                    l
                })
                .collect();
            let e = b.element(1, &[], &[]);
            last(&mut b).set(p::ListNodes, PV::Oids(ls));
            let o = b.outline(&[e]);
            page(b, &[o])
        }),
        ("images on a page", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let x = b.image(None);
                    last(&mut b).set(p::DisplayedPageNumber, PV::U32(i as u32));
                    x
                })
                .collect();
            page(b, &l)
        }),
        ("outlines on a page", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let x = b.outline(&[]);
                    last(&mut b).set(p::LayoutMaxWidth, PV::f(i as f32));
                    x
                })
                .collect();
            page(b, &l)
        }),
        ("contents of a title", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let x = b.outline(&[]);
                    last(&mut b).set(p::LayoutMaxWidth, PV::f(i as f32));
                    x
                })
                .collect();
            let t = b.title(&l);
            section1(b, &[], Some(t))
        }),
        ("distinct pages of a series", 4097, |n| many_pages(n, n)),
        ("series of a section", 4097, |n| many_pages(n, 1)),
        ("series of a section with the same three pages", 4097, |n| {
            let mut ir = three_pages(vec![]);
            let l: Vec<Vec<Cell>> = (0..n).map(|i| vec![cell(2 + ap(i, 3) as u32)]).collect();
            ir.spaces[0] = section_root(&l);
            ir
        }),
    ]
}
fn c12() -> Vec<Item> {
    fn cells(b: &mut B, n: usize) -> Vec<Ex> {
        (0..n)
            .map(|i| {
                let x = b.cell(&[]);
                last(b).set(p::LayoutMaxWidth, PV::f(i as f32));
                x
            })
            .collect()
    }
    fn table(b: &mut B, rows: &[Ex], r: usize, c: usize) -> StoreIR {
        let t = b.table(rows, r as u32, c as u32);
        let b = std::mem::take(b);
        page_of_element(b, &[t])
    }
    vec![
        ("rows", 70_000, |n| {
            let mut b = B::new();
            let rows: Vec<Ex> = (0..n)
                .map(|i| {
                    let x = b.cell(&[]);
                    last(&mut b).set(p::LayoutMaxWidth, PV::f(i as f32));
                    b.row(&[x])
                })
                .collect();
            table(&mut b, &rows, n, 1)
        }),
        ("cells of a row", 70_000, |n| {
            let mut b = B::new();
            let c = cells(&mut b, n);
            let r = b.row(&c);
            table(&mut b, &[r], 1, n)
        }),
        ("elements of a cell", 70_000, |n| {
            let mut b = B::new();
            let e: Vec<Ex> = (0..n).map(|i| b.element(i as u8, &[], &[])).collect();
            let c = b.cell(&e);
            let r = b.row(&[c]);
            table(&mut b, &[r], 1, 1)
        }),
        ("cells altogether, in rows of 64", 70_000, |n| {
            let mut b = B::new();
            let c = cells(&mut b, n);
            let rows: Vec<Ex> = c.chunks(64).map(|c| b.row(c)).collect();
            table(&mut b, &rows, n.div_ceil(64), 64)
        }),
        ("column widths", 257, |n| {
            let mut b = B::new();
            let t = b.table(&[], 0, n as u32);
            let mut w = vec![n as u8];
            w.extend((0..n).flat_map(|i| (i as f32 + 0.5).to_le_bytes()));
            last(&mut b).set(p::TableColumnWidths, PV::Vec(w));
            page_of_element(b, &[t])
        }),
        ("column locks", 257, |n| {
            let mut b = B::new();
            let t = b.table(&[], 0, n as u32);
            let mut w = vec![n as u8];
            w.extend((0..n).map(|i| (i * 91) as u8));
            last(&mut b).set(p::TableColumnsLocked, PV::Vec(w));
            page_of_element(b, &[t])
        }),
        ("tables on a page", 16_385, |n| {
            let mut b = B::new();
            let els: Vec<Ex> = (0..n)
                .map(|i| {
                    let c = cells(&mut b, 1 + i % 2);
                    let r = b.row(&c);
                    let t = b.table(&[r], 1, i as u32);
                    b.element(1, &[t], &[])
                })
                .collect();
            let o = b.outline(&els);
            page(b, &[o])
        }),
    ]
}
fn c13() -> Vec<Item> {
    fn styles(b: &mut B) -> Vec<Ex> {
        (0..5u16)
            .map(|i| {
                let s = b.style();
                last(b).set(p::FontSize, PV::U16(20 + i));
                s
            })
            .collect()
    }
    fn run_text(mut b: B, props: Vec<(u32, PV)>) -> StoreIR {
        let st = b.style();
        let t = b.text("text", st);
        for (k, v) in props {
            last(&mut b).set(k, v);
        }
        page_of_element(b, &[t])
    }
    vec![
        ("plain runs", 262_145, |n| {
            let mut b = B::new();
            let s = styles(&mut b);
            let f = (0..n).map(|i| s[ap(i, 5)]).collect();
            let v: Vec<u32> = (1..n as u32).collect();
            run_text(b, vec![(p::TextRunFormatting, PV::Oids(f)), (p::TextRunIndex, idx(&v))])
        }),
        ("run indices alone", 262_145, |n| {
            let v: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x0101_0101)).collect();
            run_text(B::new(), vec![(p::TextRunIndex, idx(&v))])
        }),
        ("mathematical runs", 70_000, |n| {
            let mut b = B::new();
            let m = math_style(&mut b);
            let f = vec![m; n];
            let d = (0..n).map(|i| math_run(10 + (i % 20) as u32, i as u32)).collect();
            run_text(b, vec![(p::TextRunFormatting, PV::Oids(f)), (p::TextRunData, PV::Vals(VALS, d))])
        }),
        ("runs of embedded ink", 70_000, |n| {
            let mut b = B::new();
            let e = emb_style(&mut b, None);
            let inks: Vec<Ex> = (0..5i64)
                .map(|i| {
                    let s = b.stroke(&[i, i + 1], &[2, 3]);
                    b.ink_data(&[s])
                })
                .collect();
            let d = (0..n).map(|i| ink_run(i as f32)).collect();
            let o = (0..n).map(|i| inks[ap(i, 5)]).collect();
            run_text(
                b,
                vec![(p::TextRunFormatting, PV::Oids(vec![e; n])), (p::TextRunData, PV::Vals(VALS, d)), (p::TextRunDataObject, PV::Oids(o))],
            )
        }),
        ("runs of all kinds", 70_000, |n| {
            let mut b = B::new();
            let plain = styles(&mut b);
            let (m, e, sp, br) = (math_style(&mut b), emb_style(&mut b, None), emb_style(&mut b, Some(0x20026)), emb_style(&mut b, Some(0x20027)));
            let s = b.stroke(&[1, 2], &[2, 3]);
            let s2 = b.stroke(&[5, 9], &[4, 3]);
            let inks = [b.ink_data(&[s]), b.ink_data(&[s2])];
            let (mut f, mut d, mut o) = (vec![], vec![], vec![]);
            for i in 0..n {
                let k = ap(i, 6);
                f.push([plain[i % 5], m, e, sp, br, plain[0]][k]);
                d.push(match k {
                    1 => math_run(10 + (i % 20) as u32, i as u32),
                    2 => ink_run(i as f32),
                    3 => space_run(i as f32),
                    _ => vec![],
                });
                if k == 2 {
                    o.push(inks[i / 3 % 2]);
                }
            }
            let v: Vec<u32> = (1..n as u32).collect();
            run_text(
                b,
                vec![
                    (p::TextRunFormatting, PV::Oids(f)),
                    (p::TextRunIndex, idx(&v)),
                    (p::TextRunData, PV::Vals(VALS, d)),
                    (p::TextRunDataObject, PV::Oids(o)),
                ],
            )
        }),
        ("paragraphs", 70_000, |n| {
            let mut b = B::new();
            let s = styles(&mut b);
            let t: Vec<Ex> = (0..n)
                .map(|i| {
                    let t = b.text(&i.to_string(), s[ap(i, 5)]);
                    last(&mut b).set(p::TextRunFormatting, PV::Oids(vec![s[i % 5]]));
                    t
                })
                .collect();
            page_of_element(b, &t)
        }),
    ]
}
fn c14() -> Vec<Item> {
    fn ink(mut b: B, strokes: &[Ex]) -> StoreIR {
        let i = b.ink(strokes);
        page(b, &[i])
    }
    vec![
        ("points of a stroke", 524_289, |n| {
            let mut b = B::new();
            let v = |k: i64| (0..n as i64).map(|i| (i * i + k * i) % 100_003 - 50_000).collect::<Vec<_>>();
            let s = b.stroke(&v(3), &v(7));
            ink(b, &[s])
        }),
        ("strokes of an ink", 70_000, |n| {
            let mut b = B::new();
            let s: Vec<Ex> = (0..n as i64).map(|i| b.stroke(&[i, -i], &[2 * i, 5])).collect();
            ink(b, &s)
        }),
        ("strokes sharing their properties", 70_000, |n| {
            let mut b = B::new();
            let s0 = b.stroke(&[1], &[2]);
            let props = last(&mut b).props.last().unwrap().v.clone();
            let mut s = vec![s0];
            for i in 1..n as i64 {
                s.push(b.add(
                    jc::InkStrokeNode,
                    vec![pr(p::InkPath, PV::Vec(isf_enc(&[i, 7, -i, 9]))), pr(p::InkBias, PV::U8(0)), pr(p::InkStrokeProperties, props.clone())],
                ));
            }
            ink(b, &s)
        }),
        ("one stroke repeated", 131_073, |n| {
            let mut b = B::new();
            let s = [b.stroke(&[1, 9], &[2, 8]), b.stroke(&[4, -9], &[-2, 8]), b.stroke(&[], &[])];
            let l: Vec<Ex> = (0..n).map(|i| s[ap(i, 3)]).collect();
            ink(b, &l)
        }),
        ("inks on a page", 16_385, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n as i64)
                .map(|i| {
                    let s = b.stroke(&[i], &[-i]);
                    b.ink(&[s])
                })
                .collect();
            page(b, &l)
        }),
        ("dimensions of a stroke", 4097, |n| {
            let mut b = B::new();
            let mut g: Vec<G> = (0..n - 2).map(|i| [(i % 251) as u8 + 1; 16]).collect();
            g.insert(n / 3, DIM_X());
            g.push(DIM_Y());
            let pts = 3;
            let s = b.stroke(&[], &[]);
            let k = b.objs.len();
            b.objs[k - 2].set(p::InkDimensions, PV::Vec(dims(&g)));
            let v: Vec<i64> = (0..(n * pts) as i64).collect();
            last(&mut b).set(p::InkPath, PV::Vec(isf_enc(&v)));
            ink(b, &[s])
        }),
    ]
}
fn c15() -> Vec<Item> {
    fn data(i: usize) -> Vec<u8> {
        let mut v = (i as u32).to_le_bytes().to_vec();
        v.truncate(1 + i % 4);
        v.extend([i as u8; 3]);
        v
    }
    vec![
        ("images on a page", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let bl = b.blob(data(i));
                    let c = b.add(jc::PictureContainer, vec![]);
                    last(&mut b).blob = Some(bl);
                    b.add(jc::ImageNode, vec![pr(p::PictureContainer, PV::Oid(c))])
                })
                .collect();
            page(b, &l)
        }),
        ("frames of an image", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n).map(|i| b.add(jc::IFrameNode, vec![prs(p::ImageEmbeddedUrl, &format!("https://example.org/{i}"))])).collect();
            let x = b.image(None);
            last(&mut b).set(p::ContentChildNodes, PV::Oids(l));
            page(b, &[x])
        }),
        ("attachments in an element", 70_000, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let bl = b.blob(data(i));
                    let c = b.add(jc::EmbeddedFileContainer, vec![]);
                    last(&mut b).blob = Some(bl);
                    b.add(
                        jc::EmbeddedFileNode,
                        vec![
                            pr(p::LastModifiedTime, PV::U32(3)),
                            pr(p::EmbeddedFileContainer, PV::Oid(c)),
                            prs(p::EmbeddedFileName, &format!("f{i}")),
                        ],
                    )
                })
                .collect();
            page_of_element(b, &l)
        }),
        ("one item's data, repeated", 70_000, |n| {
            let mut b = B::new();
            let x = b.image(Some(vec![1, 2, 3]));
            let y = b.file("f", vec![4, 5]);
            let l: Vec<Ex> = (0..n).map(|i| if ap(i, 2) == 0 { x } else { y }).collect();
            page_of_element(b, &l)
        }),
        ("bytes of an image and an attachment", 1 << 24, |n| {
            let mut b = B::new();
            let f = |k: usize, n: usize| (0..n).map(|i| (i * k >> 5) as u8).collect::<Vec<u8>>();
            let x = b.image(Some(f(31, n)));
            let y = b.file("f", f(57, n + 1));
            page_of_element(b, &[x, y])
        }),
    ]
}
fn c16() -> Vec<Item> {
    vec![
        ("distinct styles", 65_536, |n| {
            let mut b = B::new();
            let t: Vec<Ex> = (0..n)
                .map(|i| {
                    let s = b.style();
                    let o = last(&mut b);
                    o.set(p::FontSize, PV::U16(i as u16)).set(p::FontColor, PV::U32(0x00ff_ffff & (i as u32 * 257)));
                    o.set(p::Bold, PV::Bool(i % 2 == 0)).set(p::Italic, PV::Bool(i % 3 == 0));
                    b.text("x", s)
                })
                .collect();
            page_of_element(b, &t)
        }),
        ("distinct images", 65_536, |n| {
            let mut b = B::new();
            let l: Vec<Ex> = (0..n)
                .map(|i| {
                    let x = b.image(None);
                    let o = last(&mut b);
                    o.set(p::PictureWidth, PV::f(i as f32)).set(p::PictureHeight, PV::f(i as f32 + 0.5)).set(p::LanguageId, PV::U32(i as u32));
                    x
                })
                .collect();
            page_of_element(b, &l)
        }),
    ]
}
fn c17() -> Vec<Item> {
    // one construction per place that holds text; the place is chosen by the caller
    vec![("units of a text", 262_145, |_| unreachable!())]
}
fn c18() -> Vec<Item> {
    fn host(mut b: B, sets: Vec<Vec<Prop>>) -> StoreIR {
        let t = b.para("x");
        last(&mut b).set(p::NoteTags, tags(sets));
        page_of_element(b, &[t])
    }
    vec![
        ("tags of an item, each defined", 70_000, |n| {
            let mut b = B::new();
            let ds: Vec<Ex> = (0..5).map(|i| b.tag_def(&format!("d{i}"), i)).collect();
            let sets = (0..n).map(|i| tagset(Some(ds[ap(i, 5)]), (i % 8) as u16, i as u32, None)).collect();
            host(b, sets)
        }),
        ("tags of an item, some defined", 70_000, |n| {
            let mut b = B::new();
            let ds: Vec<Ex> = (0..5).map(|i| b.tag_def(&format!("d{i}"), i)).collect();
            let sets = (0..n)
                .map(|i| tagset(if ap(i, 3) == 1 { Some(ds[ap(i, 5)]) } else { None }, (i % 8) as u16, i as u32, (i % 5 == 0).then_some(i as u32)))
                .collect();
            host(b, sets)
        }),
        ("definitions", 70_000, |n| {
            let mut b = B::new();
            let ds: Vec<Ex> = (0..n).map(|i| b.tag_def(&format!("d{i}"), (i % 140) as u16)).collect();
            let sets = ds.iter().enumerate().map(|(i, d)| tagset(Some(*d), 1, i as u32, None)).collect();
            host(b, sets)
        }),
        ("tagged items", 70_000, |n| {
            let mut b = B::new();
            let ds: Vec<Ex> = (0..5).map(|i| b.tag_def(&format!("d{i}"), i)).collect();
            let st = b.style();
            let t: Vec<Ex> = (0..n)
                .map(|i| {
                    let t = b.text("x", st);
                    last(&mut b).set(p::NoteTags, tags(vec![tagset(Some(ds[ap(i, 5)]), 0, i as u32, None)]));
                    t
                })
                .collect();
            page_of_element(b, &t)
        }),
    ]
}
fn c05() -> Vec<Item> {
    fn obj(n: u32, s: &str) -> Obj {
        Obj { id: xo(n), jcid: jc::RichTextNode, props: vec![pr(p::LastModifiedTime, PV::U32(7)), pr(p::ParagraphStyle, PV::Oid(xo(1))), prs(p::RichEditTextUnicode, s)], blob: None }
    }
    /// three paragraphs (objects 2, 3, 4) whose oldest version is stored in the last of `revs`
    fn history(n: usize, newer: impl Fn(usize) -> Vec<Obj>) -> StoreIR {
        let mut b = B::new();
        let st = b.style();
        let t: Vec<Ex> = (0..3).map(|i| b.text(&format!("old {i}"), st)).collect();
        let mut ir = page_of_element(b, &t);
        let sp = &mut ir.spaces[1];
        let mut old = sp.revs.pop().unwrap();
        let g = |i: usize| (Ex::new(GREV, 500_000 + i as u32), eid(500_000 + i as u32), eid(2_000_000 + i as u32));
        let mut revs = vec![];
        for i in 0..n - 1 {
            let (rev, manifest, gid) = g(i);
            let objs = newer(i);
            let groups = if objs.is_empty() { vec![] } else { vec![GroupIR { id: gid, objs }] };
            revs.push(RevIR { rev, manifest, base: g(i + 1).0, groups, roots: vec![] });
        }
        (old.rev, old.manifest, _) = g(n - 1);
        revs.push(old);
        sp.revs = revs;
        ir
    }
    vec![
        ("revisions, each rewriting one paragraph", 70_000, |n| history(n, move |i| vec![obj([2, 3][ap(i, 2)], &format!("revision {}", n - i))])),
        ("revisions, the third newest and third oldest rewriting", 70_000, |n| {
            history(n, move |i| match i {
                2 => vec![obj(2, "newer")],
                _ if i + 4 == n => vec![obj(2, "older"), obj(3, "older")],
                _ => vec![],
            })
        }),
        ("groups of a revision", 16_385, |n| {
            let mut b = B::new();
            let t = texts(&mut b, n);
            let mut ir = page_of_element(b, &t);
            let r = &mut ir.spaces[1].revs[0];
            let objs = std::mem::take(&mut r.groups[0].objs);
            r.groups = objs.into_iter().enumerate().map(|(i, o)| GroupIR { id: eid(500_000 + i as u32), objs: vec![o] }).collect();
            ir
        }),
        ("objects of a group, all rewritten", 70_000, |n| {
            let mut b = B::new();
            let t = texts(&mut b, n);
            let mut ir = page_of_element(b, &t);
            let sp = &mut ir.spaces[1];
            let mut new = sp.revs[0].clone();
            new.rev = Ex::new(GREV, 77);
            new.manifest = eid(77);
            new.base = sp.revs[0].rev;
            new.groups[0].id = eid(78);
            new.roots.clear();
            new.groups[0].objs.retain(|o| o.jcid == jc::RichTextNode);
            for (i, o) in new.groups[0].objs.iter_mut().enumerate() {
                o.set(p::RichEditTextUnicode, PV::s(&format!("new {i}")));
            }
            sp.revs.insert(0, new);
            ir
        }),
    ]
}
fn c03() -> Vec<Item> {
    vec![
        ("objects, one of which differs", 70_000, |n| {
            let mut b = B::new();
            let t = texts(&mut b, n);
            page_of_element(b, &[t[n - 1], t[0], t[n / 2], t[n - 2]])
        }),
        ("pages", 4097, |n| many_pages(n, 7)),
    ]
}

fn c04() -> Vec<Item> {
    vec![
        ("objects of a group", 70_000, |n| {
            let mut b = B::new();
            let t = texts(&mut b, n);
            page_of_element(b, &t)
        }),
        ("groups of a revision", 16_385, |n| (c05()[2].2)(n)),
        ("revisions of a page", 16_385, |n| (c05()[1].2)(n)),
        ("pages of a section", 4097, |n| many_pages(n, 7)),
        ("blobs", 70_000, |n| (c15()[0].2)(n)),
        ("bytes of an image and an attachment", 1 << 24, |n| (c15()[4].2)(n)),
    ]
}

fn list(id: &str) -> Vec<Item> {
    match id {
        "C03" => c03(),
        "C04" | "C06" => c04(),
        "C05" => c05(),
        "C07" => c07(),
        "C08" => c08(),
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        "C16" => c16(),
        "C17" => c17(),
        "C18" => c18(),
        _ => unreachable!(),
    }
}
pub fn space(id: &'static str, t: Tier) -> Space {
    let deep = t == Tier::Thorough;
    let items = list(id);
    let sizes: &'static [usize] = if deep { &HUGE } else { &QUICK };
    let what: Vec<String> = items.iter().map(|i| i.0.to_string()).collect();
    let bound = format!(
        "every count or length of {:?} (up to a limit per list) of: {}{}",
        sizes,
        what.join("; "),
        if id == "C17" { format!(", in each of {} places", super::c17::PUTS.len()) } else { String::new() }
    );
    Space::new("large-counts", bound, move |ch, cx| {
        let k = ch.choose("long", items.len());
        let (_, max, make) = items[k];
        let n = if id == "C08" && (2..6).contains(&k) {
            // a stream's count has 24 bits
            let w = if k == 2 { if deep { &STREAM[..] } else { &STREAM[..STREAM.len() - 1] } } else { &STREAM[..9] };
            *ch.pick("count", w)
        } else {
            *ch.pick("count", fits(sizes, if deep { max } else { max.min(70_000) }))
        };
        let cids: &[Cid] = match id {
            "C07" if n <= 4097 => &super::c07::CIDS,
            "C07" => &[Cid::Dedup, Cid::Unique],
            _ => &[Cid::Dedup],
        };
        let cid = *ch.pick("cid", cids);
        let ir = if id == "C17" {
            let (_, f) = ch.pick("place", super::c17::PUTS);
            f(long_text(n))
        } else {
            make(n)
        };
        let mut bo = BuildOpts { oo: ObjOpts { cid, ..Default::default() }, ..Default::default() };
        let mut o = Opts::default();
        match id {
            "C04" => {
                let f = ch.choose("framing", 4);
                o.hdr32 = f >= 2;
                o.hdr32_long = f == 3;
                if f & 1 == 1 {
                    bo.layout = Layout::RevFull { gap: 3 };
                    bo.meta = true;
                    o.cu_min = 9;
                    o.ex_min = 3;
                }
                check_store(cx, &ir, &bo, &o)
            }
            "C06" => {
                let exp = expect_section(&ir, NAME);
                let mut pk = ir.build(&bo);
                match ch.choose("elements", 3) {
                    0 => {}
                    1 => pk.elems.reverse(),
                    _ => {
                        let h = pk.elems.len() / 3;
                        pk.elems.rotate_left(h);
                        for e in &mut pk.elems {
                            if let Body::StorageIndex(v) = &mut e.body {
                                v.reverse()
                            }
                        }
                    }
                }
                let b = pk.bytes();
                let seed = 1 + ch.choose("seed", if n <= 1025 { 4 } else { 1 }) as u64;
                super::c06::seeded(seed, || check_bytes(cx, &b, &exp))
            }
            _ => check_store(cx, &ir, &bo, &o),
        }
    })
}
/// a table of contents with many entries, few of which exist
pub fn listing(t: Tier) -> Space {
    use crate::fsm::*;
    let deep = t == Tier::Thorough;
    let sizes: &'static [usize] = if deep { &HUGE } else { &QUICK };
    Space::new(
        "large-counts",
        format!("tables of contents with {:?} (quick: up to 65537, thorough: 131073) entries, flat, one folder each, or in folders of 50; in stored, reversed or mixed order, of which seven exist (the first and last of them included)", sizes),
        move |ch, cx| {
            let n = *ch.pick("entries", fits(sizes, if deep { 131_073 } else { 70_000 }));
            let how = ch.choose("order", 3);
            let nest = ch.choose("nesting", 3);
            let mut f = Fs::default();
            let present = [0, 1, n / 3, n / 2, n - 3, n - 2, n - 1];
            let mut objs = vec![];
            let mut ids = vec![];
            for i in 0..n {
                let id = xo(10 + i as u32);
                objs.push(toc_leaf(id, &format!("s{i}.one"), [i as u32, 5_000_000 - i as u32, (i as u32).wrapping_mul(0x9E37_79B9)][how]));
                ids.push(id);
            }
            let w = [n, 1, 50][nest];
            let kids: Vec<Ex> = if nest == 0 {
                ids
            } else {
                ids.chunks(w)
                    .enumerate()
                    .map(|(k, c)| {
                        let id = xo(2_000_000 + k as u32);
                        objs.push(toc_node(id, c));
                        id
                    })
                    .collect()
            };
            objs.push(toc_node(xo(1), &kids));
            for (k, i) in present.iter().enumerate() {
                f.put(&format!("nb/s{i}.one"), sec(k));
            }
            f.put(super::c10::TOC, Nd::File(F::toc(toc_store(objs, xo(1)))));
            check_fs(cx, &f, super::c10::TOC)
        },
    )
}
/// files whose length is exactly one around a block size
pub fn file_lengths(t: Tier) -> Space {
    use crate::fsm::*;
    let deep = t == Tier::Thorough;
    let top = if deep { 24 } else { 21 };
    Space::new(
        "file-lengths",
        format!("sections and tables of contents of exactly 2^k-2..=2^k+2 and 3*2^k-1..=3*2^k+1 bytes for every k of 12..={top}, in 3 layouts, by path, buffer and notebook (the length made up by a value of an object or by an embedded file)"),
        move |ch, cx| {
            let k = 12 + ch.choose("power", top - 11);
            let (m, d) = *ch.pick("length", &[(1, -2i64), (1, -1), (1, 0), (1, 1), (1, 2), (3, -1), (3, 0), (3, 1)]);
            let len = ((m << k) + d) as usize;
            let layout = *ch.pick("layout", &[Layout::Package, Layout::RevLegacy, Layout::RevFull { gap: 24 }]);
            let table = ch.flag("table");
            let blob = ch.flag("blob");
            let bo = BuildOpts { layout, ..BuildOpts::default() };
            let make = |n: usize, adj: usize| {
                let fill: Vec<u8> = (0..n).map(|i| (i * 31 >> 5) as u8).collect();
                let mut ir = if table {
                    toc_flat(&[("S.one", 1)])
                } else {
                    let mut b = B::new();
                    let t = b.para("plain");
                    let o = b.wrap(&[t]);
                    section1(b, &[o], None)
                };
                if blob {
                    ir.blobs.push((xo(777_777), fill));
                } else {
                    let objs = &mut ir.spaces[0].revs[0].groups[0].objs;
                    objs.first_mut().unwrap().props.insert(0, Prop::new(0x7000, PV::Vec(fill)));
                    ir.blobs.push((xo(777_777), vec![7; adj]));
                }
                let b = ir.build(&bo).bytes();
                (ir, b)
            };
            let (mut n, mut adj) = (0, 0);
            let mut got = make(n, adj);
            for _ in 0..16 {
                let d = len as i64 - got.1.len() as i64;
                match d {
                    0 => break,
                    // objects fill whole words
                    _ if !blob && d % 4 != 0 => adj = (adj as i64 + d).rem_euclid(8) as usize,
                    _ => n = (n as i64 + d).max(0) as usize,
                }
                got = make(n, adj);
            }
            let (ir, bytes) = got;
            if bytes.len() != len {
                return Ok(()); // between two widths of a length
            }
            cx.mix(&bytes);
            let mut fs = Fs::default();
            if table {
                fs.put("nb/t.onetoc2", Nd::File(F::Toc(ir.into(), bytes.into()))).put("nb/S.one", sec(1));
                return check_fs(cx, &fs, "nb/t.onetoc2");
            }
            let exp = expect_section(&ir, "S.one");
            let how = ch.choose("entry point", 3);
            if how == 1 {
                let g = super::c19::buf_section(cx, &bytes, std::path::Path::new("S.one"))?;
                return judge(cx, &exp, &g);
            }
            fs.put("nb/S.one", Nd::File(F::Section(ir.into(), bytes.into()))).put("nb/t.onetoc2", toc(&["S.one"]));
            if how == 2 {
                return check_fs(cx, &fs, "nb/t.onetoc2");
            }
            let root = realise(cx, &fs);
            let g = super::c19::path_section(cx, &root.join("nb/S.one"), len)?;
            judge(cx, &exp, &g)
        },
    )
}
