//! Entry points, path forms and container layouts agree.
use crate::explore::*;
use crate::fsm::*;
use crate::ids::*;
use crate::model::*;
use crate::obs;
use crate::store::*;
use crate::tree::*;
use crate::util::*;
use onenote_parser::Parser;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::LazyLock;

/// sections of every kind of content
static IRS: LazyLock<Vec<StoreIR>> = LazyLock::new(|| {
    let mut v = super::c16::minis();
    v.push(crate::rich::rich());
    v.push(super::c07::three_pages(&[2, 0, 1]));
    let mut b = B::new();
    let t = b.para("plain");
    let o = b.wrap(&[t]);
    v.push(section1(b, &[o], None));
    v
});
pub fn path_section(cx: &mut Cx, p: &Path, len: usize) -> Result<Got, Bad> {
    let r = guarded(cx, len, || Parser::new().parse_section(p).map(|s| obs::section(&s)).map_err(|e| e.to_string()))?;
    if r.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    Ok(r)
}
pub fn buf_section(cx: &mut Cx, b: &[u8], name: &Path) -> Result<Got, Bad> {
    let r = guarded(cx, b.len(), || {
        Parser::new().parse_section_buffer(b, name).map(|s| obs::section(&s)).map_err(|e| e.to_string())
    })?;
    if r.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    Ok(r)
}
/// the single entry of a notebook
fn only(g: Got) -> Got {
    g.and_then(|t| match t.get("entries") {
        T::L(v) if v.len() == 1 => Ok(v[0].clone()),
        _ => Err("not exactly one entry".into()),
    })
}
fn refused(cx: &mut Cx, got: &Got, kind: &str) -> R {
    cx.outcome = got_hash(got);
    match got {
        Ok(_) => bad("accepted", format!("a file of the wrong kind was accepted ({kind} was required)")),
        Err(e) if !e.starts_with(kind) => bad("wrong reason", format!("refused with {e:?} instead of {kind:?}")),
        Err(_) => Ok(()),
    }
}
/// run `f` with the working directory set to `d`
fn within<T>(d: &Path, f: impl FnOnce() -> T) -> T {
    let old = std::env::current_dir().unwrap_or_else(|_| "/".into());
    std::env::set_current_dir(d).unwrap();
    let r = f();
    std::env::set_current_dir(old).unwrap();
    r
}
const LAYOUTS: [Layout; 7] = [
    Layout::Package,
    Layout::RevLegacy,
    Layout::RevFull { gap: 0 },
    Layout::RevFull { gap: 1 },
    Layout::RevFull { gap: 24 },
    Layout::RevFull { gap: 1000 },
    Layout::RevFull { gap: 70_000 },
];

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(super::real::plain());
    v.push(super::scale::file_lengths(t));
    v.push(Space::new(
        "content-by-entry-point",
        format!("sections with each kind of content in {} container layouts, parsed from a path, a buffer, through a notebook and through a section group", LAYOUTS.len()),
        move |ch, cx| {
            let ir = ch.pick("content", &IRS);
            let layout = *ch.pick("layout", &LAYOUTS);
            let bytes = ir.build(&BuildOpts { layout, ..BuildOpts::default() }).bytes();
            cx.mix(&bytes);
            let exp = expect_section(ir, "S x.one");
            let f = F::Section(ir.clone().into(), bytes.clone().into());
            let mut fs = Fs::default();
            let how = ch.choose("entry point", 5);
            cx.mix(&[how as u8]);
            let tocf = {
                let ir = toc_flat(&[("S x.one", 1)]);
                let b = ir.build(&BuildOpts { layout: *ch.pick("table layout", if how > 1 { &LAYOUTS[..4] } else { &LAYOUTS[..1] }), ..BuildOpts::default() }).bytes();
                Nd::File(F::Toc(ir.into(), b.into()))
            };
            match how {
                0 | 1 => fs.put("S x.one", Nd::File(f)),
                2 => fs.put("nb/S x.one", Nd::File(f)).put("nb/t.onetoc2", tocf),
                3 => fs.put("nb/g/S x.one", Nd::File(f)).put("nb/g/q.onetoc2", tocf).put("nb/t.onetoc2", toc(&["g"])),
                _ => fs.put("nb/sub/S x.one", Nd::File(f)).put("nb/t.onetoc2", toc(&["sub/S x.one"])),
            };
            let root = realise(cx, &fs);
            let got = match how {
                0 => path_section(cx, &root.join("S x.one"), bytes.len())?,
                1 => buf_section(cx, &bytes, Path::new("S x.one"))?,
                3 => {
                    let g = parse_nb(cx, &root.join("nb/t.onetoc2"), fs.len())?;
                    only(only(g))
                }
                _ => only(parse_nb(cx, &root.join("nb/t.onetoc2"), fs.len())?),
            };
            judge(cx, &exp, &got)
        },
    ));
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "display-name",
        format!("file names of up to {n} of 11 pieces (extension, repeated or in capitals or inside the name, dots, spaces, non-ASCII) with the stored name absent, empty, plain or with an extension, by path, buffer and notebook"),
        move |ch, cx| {
            const P: [&str; 11] = ["A", ".one", ".", "one", ".ONE", ".onetoc2", " ", "日", ".onex", "%20", "."];
            let n = 1 + ch.choose("pieces", n);
            let name: String = (0..n).map(|_| *ch.pick("piece", &P)).collect();
            if name == "." || name == ".." {
                return Ok(());
            }
            let stored = *ch.pick("stored name", &[None, Some(""), Some("X y"), Some("A.one"), Some(".one")]);
            let mut b = B::new();
            let t = b.para("plain");
            let o = b.wrap(&[t]);
            let mut ir = section1(b, &[o], None);
            if let Some(s) = stored {
                ir.obj(0, xo(SMETA)).set(p::SectionDisplayName, PV::s(s));
            }
            let bytes = ir.build(&BuildOpts::default()).bytes();
            cx.mix(&bytes);
            cx.mix(name.as_bytes());
            let exp = expect_section(&ir, &name);
            let got = buf_section(cx, &bytes, Path::new(&name))?;
            judge(cx, &exp, &got)?;
            let mut fs = Fs::default();
            fs.put(&format!("nb/{name}"), Nd::File(F::Section(ir.into(), bytes.into())));
            fs.put("nb/t/t.onetoc2", toc(&[&name]));
            let root = realise(cx, &fs);
            let got = path_section(cx, &root.join("nb").join(&name), fs.len())?;
            judge(cx, &exp, &got)?;
            if entry_name(&name) == Some(true) {
                let mut fs = fs.clone();
                fs.put("nb/~.onetoc2", toc(&[&name]));
                let root = realise(cx, &fs);
                let got = only(parse_nb(cx, &root.join("nb/~.onetoc2"), fs.len())?);
                judge(cx, &exp, &got)?;
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "raw-file-names",
        "file names of up to 3 of 9 byte strings that are not all valid UTF-8, in a directory that is or is not valid UTF-8: path and buffer agree",
        move |ch, cx| {
            const P: [&[u8]; 9] = [b"A", b".one", b"\xff", b"\xe9", b"\xc3\xa9", b"\xf0\x9f", b"\x80", b"\x01", b"\n"];
            let n = 1 + ch.choose("pieces", 3);
            let mut name = vec![];
            for _ in 0..n {
                name.extend(*ch.pick("piece", &P));
            }
            let dir: &[u8] = *ch.pick("directory", &[&b"d"[..], b"d\xff"]);
            cx.mix(&name);
            cx.mix(dir);
            let SecBytes(bytes) = sec0();
            let root = cx.scratch_dir().join("raw");
            let d = root.join(OsString::from_vec(dir.to_vec()));
            std::fs::create_dir_all(&d).unwrap();
            let file = d.join(OsString::from_vec(name.clone()));
            std::fs::write(&file, &bytes[..]).unwrap();
            let a = path_section(cx, &file, bytes.len())?;
            let b = buf_section(cx, bytes, Path::new(&OsString::from_vec(name.clone())))?;
            std::fs::remove_file(&file).unwrap();
            let lossy = String::from_utf8_lossy(&name).into_owned();
            let F::Section(ir, _) = &SECS[0] else { unreachable!() };
            let exp = expect_section(ir, &lossy);
            judge(cx, &exp, &a)?;
            judge(cx, &exp, &b)
        },
    ));
    v.push(Space::new(
        "wrong-kind",
        "tables of contents, sections, and files of 4 other schemas in each layout, given to each entry point",
        move |ch, cx| {
            let layout = *ch.pick("layout", &LAYOUTS);
            let kind = ch.choose("kind", 6);
            let mut ir = match kind {
                0 => toc_flat(&[]),
                1 => toc_flat(&[("A.one", 1)]),
                _ => match &SECS[0] {
                    F::Section(ir, _) => (**ir).clone(),
                    _ => unreachable!(),
                },
            };
            match kind {
                3 => ir.schema = [0; 16],
                4 => ir.schema = C.fmt_pkg,
                5 => ir.schema[15] ^= 1,
                _ => {}
            }
            let bytes = ir.build(&BuildOpts { layout, ..BuildOpts::default() }).bytes();
            cx.mix(&bytes);
            let mut fs = Fs::default();
            let how = ch.choose("entry point", 4);
            cx.mix(&[how as u8]);
            let nd = Nd::File(F::raw(&bytes));
            match how {
                0 => fs.put("x", nd),
                1 => fs.put("x", nd),
                2 => fs.put("nb/A.one", nd).put("nb/t.onetoc2", toc(&["A.one"])),
                _ => fs.put("nb/x.onetoc2", nd),
            };
            let root = realise(cx, &fs);
            let sec = "Not a section file";
            match how {
                0 => {
                    let g = path_section(cx, &root.join("x"), bytes.len())?;
                    if kind == 2 { judge(cx, &expect_section(&ir, "x"), &g) } else { refused(cx, &g, sec) }
                }
                1 => {
                    let g = buf_section(cx, &bytes, Path::new("x"))?;
                    if kind == 2 { judge(cx, &expect_section(&ir, "x"), &g) } else { refused(cx, &g, sec) }
                }
                2 => {
                    let g = only(parse_nb(cx, &root.join("nb/t.onetoc2"), fs.len())?);
                    if kind == 2 { judge(cx, &expect_section(&ir, "A.one"), &g) } else { refused(cx, &g, sec) }
                }
                _ => {
                    let g = parse_nb(cx, &root.join("nb/x.onetoc2"), fs.len())?;
                    if kind < 2 {
                        cx.outcome = got_hash(&g);
                        if let Err(e) = g {
                            return bad("rejected", format!("a table of contents was refused: {e}"));
                        }
                        Ok(())
                    } else {
                        refused(cx, &g, "Not a table of contents file")
                    }
                }
            }
        },
    ));
    v.push(Space::new(
        "not-files",
        "each entry point given a missing path, a directory, an empty path, a dangling or cyclic link: an error",
        move |ch, cx| {
            let mut fs = Fs::default();
            fs.put("d/e", Nd::Dir).put("dangling", link("nowhere")).put("loop", link("loop")).put("dlink", link("d")).put("empty", Nd::File(F::raw(b"")));
            let root = realise(cx, &fs);
            let p: PathBuf = match ch.choose("path", 9) {
                0 => root.join("missing"),
                1 => root.join("d"),
                2 => PathBuf::new(),
                3 => root.join("dangling"),
                4 => root.join("loop"),
                5 => root.join("dlink"),
                6 => root.join("empty"),
                7 => root.join("empty/x"),
                _ => "/".into(),
            };
            cx.mix(p.as_os_str().as_encoded_bytes());
            let nb = ch.flag("notebook");
            cx.mix(&[nb as u8]);
            let g = within(&root, || if nb { parse_nb(cx, &p, 0) } else { path_section(cx, &p, 0) })?;
            judge(cx, &Err(X::Err), &g)
        },
    ));
    v.push(Space::new(
        "path-forms",
        "a notebook and a section reached by paths of up to 4 of 9 components (links to directories and files, parents, dots, doubled slashes) from 4 working directories, or absolute: same result as the plain absolute path",
        move |ch, cx| {
            let mut fs = Fs::default();
            fs.put("w/nb/t.onetoc2", toc(&["A.one", "g", "l.one"]))
                .put("w/nb/A.one", sec(0))
                .put("w/nb/l.one", link("A.one"))
                .put("w/nb/g/q.onetoc2", toc(&["C.one"]))
                .put("w/nb/g/C.one", sec(2))
                .put("w/nb/g/up", link(".."))
                .put("w/ln", link("nb"))
                .put("w/nb/ln", link("../nb"))
                .put("w/other/nb", link("../ln"));
            let n = ch.choose("components", 4);
            let mut parts: Vec<&str> = vec![];
            for _ in 0..n {
                parts.push(*ch.pick("component", &["nb", "..", ".", "", "ln", "g", "up", "other", "w"]));
            }
            let sect = ch.choose("leaf", 3);
            parts.push(["t.onetoc2", "A.one", "l.one"][sect]);
            let rel = parts.join("/");
            let cwd = *ch.pick("working directory", &["w/nb", "w", "w/other", ""]);
            let abs = ch.flag("absolute");
            if rel.starts_with('/') {
                return Ok(());
            }
            // what the model says the path is
            let full = join2(cwd, &rel);
            let at = fs.resolve(&full);
            let root = realise(cx, &fs);
            cx.mix(full.as_bytes());
            cx.mix(&[abs as u8]);
            let p = if abs { PathBuf::from(format!("{}/{full}", root.display())) } else { PathBuf::from(&rel) };
            let len = fs.len();
            let g = within(&root.join(cwd), || if sect == 0 { parse_nb(cx, &p, len) } else { path_section(cx, &p, len) })?;
            let exp = match at {
                Res::At(c) if fs.file(&c).is_some() => {
                    if sect == 0 {
                        promise(&fs, &c).sure()
                    } else {
                        match fs.file(&c) {
                            Some(F::Section(ir, _)) => expect_section(ir, parts.last().unwrap()),
                            _ => Err(X::Err),
                        }
                    }
                }
                // above the world
                Res::Out => Err(X::Any),
                _ => Err(X::Err),
            };
            judge(cx, &exp, &g)
        },
    ));
    v.push(Space::new(
        "buffer-names",
        "the name given with a buffer decides nothing but the fallback display name: 12 names (empty, with extension, without, long, not a section name)",
        move |ch, cx| {
            let ir = ch.pick("content", &IRS);
            let long = "n".repeat(5000);
            let name = match ch.choose("name", 12) {
                0 => "a.one",
                1 => "a",
                2 => "",
                3 => ".one",
                4 => "a.onetoc2",
                5 => "a.one.one",
                6 => "A.ONE",
                7 => &long,
                8 => "é.one",
                9 => "a b.one ",
                10 => "OneNote_RecycleBin",
                _ => "a.txt",
            };
            let bytes = ir.build(&BuildOpts::default()).bytes();
            cx.mix(&bytes);
            cx.mix(name.as_bytes());
            let g = buf_section(cx, &bytes, Path::new(name))?;
            judge(cx, &expect_section(ir, name), &g)
        },
    ));
    v.push(Space::new(
        "layout-gaps",
        "the full header followed by a transaction log of every length 0..=600, on a section and a table of contents; every layout for a notebook's table, its group's table and a section at once",
        move |ch, cx| {
            if ch.flag("mixed") {
                let mut fs = Fs::default();
                let mk = |ch: &mut Ch, ir: StoreIR, toc: bool| {
                    let b = ir.build(&BuildOpts { layout: *ch.pick("layout", &LAYOUTS[..5]), ..BuildOpts::default() }).bytes();
                    Nd::File(if toc { F::Toc(ir.into(), b.into()) } else { F::Section(ir.into(), b.into()) })
                };
                let s = match &SECS[1] {
                    F::Section(ir, _) => (**ir).clone(),
                    _ => unreachable!(),
                };
                let a = mk(ch, toc_flat(&[("g", 1), ("S.one", 2)]), true);
                let b = mk(ch, toc_flat(&[("T.one", 1)]), true);
                let c = mk(ch, s.clone(), false);
                let d = mk(ch, s, false);
                fs.put("nb/t.onetoc2", a).put("nb/g/q.onetoc2", b).put("nb/S.one", c).put("nb/g/T.one", d);
                return check_fs(cx, &fs, "nb/t.onetoc2");
            }
            let gap = ch.choose("gap", 601) as u32;
            let layout = Layout::RevFull { gap };
            if ch.flag("table") {
                let ir = toc_flat(&[("S.one", 2)]);
                let b = ir.build(&BuildOpts { layout, ..BuildOpts::default() }).bytes();
                let mut fs = Fs::default();
                fs.put("nb/t.onetoc2", Nd::File(F::Toc(ir.into(), b.into()))).put("nb/S.one", sec(1));
                check_fs(cx, &fs, "nb/t.onetoc2")
            } else {
                let F::Section(ir, _) = &SECS[2] else { unreachable!() };
                check_store(cx, ir, &BuildOpts { layout, ..BuildOpts::default() }, &crate::enc::Opts::default())
            }
        },
    ));
    v
}
struct SecBytes<'a>(&'a Vec<u8>);
fn sec0() -> SecBytes<'static> {
    SecBytes(SECS[0].bytes())
}
fn join2(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else { format!("{a}/{b}") }
}
