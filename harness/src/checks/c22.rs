//! Errors say what is wrong, and with which file.
use super::c20::{self, SCENES};
use crate::explore::*;
use crate::fsm::*;
use crate::model::*;
use crate::obs;
use crate::store::*;
use crate::sys::Act;
use crate::util::*;
use onenote_parser::Parser;
use std::path::{Path, PathBuf};

const SECTION: &str = "Not a section file: ";
const TOC: &str = "Not a table of contents file: ";
const NO_TABLE: &str = "Table of contents file is missing in dir ";
const IO: &str = "I/O failure: ";

/// the error has to begin with `kind` and to name `file`
fn says(cx: &mut Cx, got: &Got, kind: &str, file: &str) -> R {
    cx.outcome = got_hash(got);
    match got {
        Ok(_) => bad("accepted", format!("accepted, {kind}{file} was expected")),
        Err(e) if !e.starts_with(kind) => bad("wrong reason", format!("refused with {e:?} instead of {kind:?}")),
        Err(e) if !e.ends_with(file) => bad("wrong name", format!("refused with {e:?}, which does not name {file:?}")),
        Err(_) => Ok(()),
    }
}
/// no error of a kind that accuses anything but the bytes
fn blames_bytes(cx: &mut Cx, got: &Got) -> R {
    cx.outcome = got_hash(got);
    if let Err(e) = got
        && [SECTION, TOC, NO_TABLE, IO].iter().any(|k| e.starts_with(k))
    {
        return bad("wrong reason", format!("damaged content of the right kind is refused with {e:?}"));
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Via {
    Buffer,
    Path,
    Notebook,
    Entry,
    Nested,
    GroupTable,
}
const VIAS: [Via; 6] = [Via::Buffer, Via::Path, Via::Notebook, Via::Entry, Via::Nested, Via::GroupTable];
impl Via {
    fn wants_toc(self) -> bool {
        matches!(self, Via::Notebook | Via::GroupTable)
    }
    /// parse `bytes` this way; the answer and the file the error has to name
    fn go(self, cx: &mut Cx, bytes: Vec<u8>, name: &str) -> Result<(Got, String), Bad> {
        if self == Via::Buffer {
            return Ok((super::c19::buf_section(cx, &bytes, Path::new(name))?, name.to_string()));
        }
        let mut f = Fs::default();
        let at = match self {
            Via::Path => format!("d/{name}"),
            Via::Notebook => format!("d/{name}"),
            Via::Entry => {
                f.put("d/t.onetoc2", toc(&["ok.one", name])).put("d/ok.one", sec(0));
                format!("d/{name}")
            }
            Via::Nested => {
                f.put("d/t.onetoc2", toc(&["g"])).put("d/g/u.onetoc2", toc(&["ok.one", name])).put("d/g/ok.one", sec(0));
                format!("d/g/{name}")
            }
            _ => {
                f.put("d/t.onetoc2", toc(&["ok.one", "g"])).put("d/ok.one", sec(0)).put("d/g/x.one", sec(1));
                format!("d/g/{name}")
            }
        };
        let n = bytes.len();
        f.put(&at, Nd::File(F::raw(&bytes)));
        let root = realise(cx, &f);
        let entry: PathBuf = if matches!(self, Via::Path | Via::Notebook) { root.join(&at) } else { root.join("d/t.onetoc2") };
        let got = guarded(cx, n + 4000, || {
            if self == Via::Path {
                Parser::new().parse_section(&entry).map(|s| obs::section(&s)).map_err(|e| e.to_string())
            } else {
                Parser::new().parse_notebook(&entry).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
            }
        })?;
        if got.is_ok() { cx.ok += 1 } else { cx.err += 1 }
        Ok((got, name.to_string()))
    }
}
fn one() -> StoreIR {
    super::c06::small()
}
fn table() -> StoreIR {
    toc_flat(&[("gone.one", 1)])
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new(
        "other-kinds",
        "a well-formed file of another kind (each kind of the format, none, and every identifier one bit away from the two kinds), with section or table content, given to each of 6 ways of reading a file of either kind, in 4 layouts: refused as not being such a file, naming it",
        move |ch, cx| {
            let via = *ch.pick("via", &VIAS);
            let mut ir = if ch.flag("table content") { table() } else { one() };
            let own = if via.wants_toc() { C.notebook } else { C.section };
            let k = ch.choose("kind", 2 + 256);
            ir.schema = match k {
                0 => [C.section, C.notebook][!via.wants_toc() as usize],
                1 => [0; 16],
                k => {
                    let mut g = [C.section, C.notebook][(k - 2) / 128];
                    g[(k - 2) % 128 / 8] ^= 1 << ((k - 2) % 8);
                    g
                }
            };
            if ir.schema == own {
                return Ok(());
            }
            let layout = if k < 2 || deep { *ch.pick("layout", &[Layout::Package, Layout::RevLegacy, Layout::RevFull { gap: 0 }, Layout::RevFull { gap: 24 }]) } else { Layout::Package };
            let bytes = ir.build(&BuildOpts { layout, ..Default::default() }).bytes();
            cx.mix(&bytes);
            cx.mix(&[via as u8]);
            let (got, file) = via.go(cx, bytes, if via.wants_toc() { "x.onetoc2" } else { "x.one" })?;
            says(cx, &got, if via.wants_toc() { TOC } else { SECTION }, &file)
        },
    ));
    v.push(Space::new(
        "file-names",
        "a file of the other kind under every name of up to 2 (thorough: 3) of 12 pieces (letters, blanks, dots, percent signs, accents, characters beyond the basic plane), in each of the 6 ways: the error names the file",
        move |ch, cx| {
            const PCS: [&str; 12] = ["a", "B", " ", ".", "%20", "\u{e9}", "e\u{301}", "\u{1f600}", "'", "&", "{0}", "_"];
            let via = *ch.pick("via", &VIAS);
            let n = 1 + ch.choose("pieces", if deep { 3 } else { 2 });
            let mut name = String::from("n");
            for _ in 0..n {
                name.push_str(ch.pick("piece", &PCS));
            }
            name.push_str(if via.wants_toc() { "e.onetoc2" } else { "e.one" });
            let bytes = if via.wants_toc() { one() } else { table() }.build(&BuildOpts::default()).bytes();
            cx.mix(name.as_bytes());
            cx.mix(&[via as u8]);
            let (got, file) = via.go(cx, bytes, &name)?;
            says(cx, &got, if via.wants_toc() { TOC } else { SECTION }, &file)
        },
    ));
    v.push(Space::new(
        "raw-names",
        "a file of the other kind whose name is made of up to 3 of 9 byte strings that are not all valid UTF-8, below a directory that is or is not valid UTF-8: as a section path, a notebook path, a buffer's name or the table of a group, and an entry of a notebook in such a directory; and a group without table there: the error names file or directory as far as its name can be read",
        move |ch, cx| {
            use std::ffi::OsString;
            use std::os::unix::ffi::OsStringExt;
            const P: [&[u8]; 9] = [b"A", b".one", b"\xff", b"\xe9", b"\xc3\xa9", b"\xf0\x9f", b"\x80", b"\x01", b"\n"];
            let os = |b: &[u8]| OsString::from_vec(b.to_vec());
            let how = ch.choose("how", 6);
            let mut name = b"n".to_vec();
            for _ in 0..1 + ch.choose("pieces", 3) {
                name.extend(*ch.pick("piece", &P));
            }
            let dir: &[u8] = *ch.pick("directory", &[&b"d"[..], b"d\xff"]);
            cx.mix(&name);
            cx.mix(dir);
            cx.mix(&[how as u8]);
            let root = cx.scratch_dir().join("raw");
            let _ = std::fs::remove_dir_all(&root);
            let d = root.join(os(dir));
            std::fs::create_dir_all(d.join("g")).unwrap();
            let section = one().build(&BuildOpts::default()).bytes();
            let table = table().build(&BuildOpts::default()).bytes();
            let lists = |n: &str| toc_flat(&[(n, 1)]).build(&BuildOpts::default()).bytes();
            let (mut want, mut kind) = (String::from_utf8_lossy(&name).into_owned(), SECTION);
            let mut entry = d.join(os(&name));
            match how {
                0 => std::fs::write(&entry, &table).unwrap(),
                1 => {
                    kind = TOC;
                    std::fs::write(&entry, &section).unwrap()
                }
                2 => {}
                3 => {
                    kind = TOC;
                    name.extend(b".onetoc2");
                    want.push_str(".onetoc2");
                    std::fs::write(d.join("g").join(os(&name)), &section).unwrap();
                    std::fs::write(&entry, lists("g")).unwrap();
                }
                4 => {
                    want = "x.one".to_string();
                    std::fs::write(d.join("x.one"), &table).unwrap();
                    std::fs::write(&entry, lists("x.one")).unwrap();
                }
                _ => {
                    kind = NO_TABLE;
                    want = "g".to_string();
                    std::fs::write(&entry, lists("g")).unwrap();
                }
            }
            if how == 2 {
                entry = PathBuf::from(os(&name));
            }
            let got = guarded(cx, 2 * table.len() + section.len(), || {
                match how {
                    0 => Parser::new().parse_section(&entry).map(|s| obs::section(&s)),
                    2 => Parser::new().parse_section_buffer(&table, &entry).map(|s| obs::section(&s)),
                    _ => Parser::new().parse_notebook(&entry).map(|s| obs::notebook(&s)),
                }
                .map_err(|e| e.to_string())
            })?;
            cx.err += 1;
            says(cx, &got, kind, &want)
        },
    ));
    v.push(Space::new(
        "refused-entries",
        "a table of contents at depth 0..=2 with an entry that cannot be accepted (absolute, with parent components, empty, with each of 20 characters no file name has, a link to the outside in 4 forms), before or behind a good one: refused for the path, not as missing, of the wrong kind or unreadable",
        move |ch, cx| {
            let depth = ch.choose("depth", 3);
            let mut f = Fs::default();
            let mut d = String::from("d");
            for i in 0..depth {
                let n = format!("l{i}");
                f.put(&format!("{d}/t.onetoc2"), toc(&[&n]));
                d = format!("{d}/{n}");
            }
            const CH: [&str; 20] =
                ["<", ">", ":", "\"", "\\", "|", "?", "*", "\u{1}", "\u{2}", "\u{7}", "\u{8}", "\t", "\n", "\r", "\u{1b}", "\u{1f}", "a/\n", "a:/b", "\u{1e}"];
            let k = ch.choose("entry", 11 + CH.len());
            let name = match k {
                0 => "/etc/x.one".to_string(),
                1 => "/".to_string(),
                2 => "..".to_string(),
                3 => "../x.one".to_string(),
                4 => "ok.one/../../x.one".to_string(),
                5 => ".".to_string(),
                6 => "a/..".to_string(),
                7 => "out.one".to_string(),
                8 => "outdir".to_string(),
                9 => "outdir/x.one".to_string(),
                10 => "self".to_string(),
                k => format!("n{}e.one", CH[k - 11]),
            };
            f.put("other/x.one", sec(1)).put("other/t.onetoc2", toc(&["x.one"])).put(&format!("{d}/ok.one"), sec(0));
            f.put(&format!("{d}/t.onetoc2"), if ch.flag("behind") { toc(&["ok.one", &name]) } else { toc(&[&name, "ok.one"]) });
            let up = "../".repeat(depth + 1);
            f.put(&format!("{d}/out.one"), link(&format!("{up}other/x.one"))).put(&format!("{d}/outdir"), link(&format!("{up}other"))).put(&format!("{d}/self"), link("."));
            cx.mix(format!("{depth} {name}").as_bytes());
            let root = realise(cx, &f);
            let got = guarded(cx, f.len(), || {
                Parser::new().parse_notebook(&root.join("d/t.onetoc2")).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
            })?;
            if got.is_ok() { cx.ok += 1 } else { cx.err += 1 }
            says(cx, &got, "Invalid path", "")
        },
    ));
    v.push(Space::new(
        "missing-tables",
        "a directory entry without a table of contents at depth 1..=4, with every subset of 6 other members (a file without extension, one of the extension in capitals, a name ending in the letters without the dot, a section, a directory, nothing but a dot file): refused for the missing table, naming the directory",
        move |ch, cx| {
            let depth = 1 + ch.choose("depth", 4);
            let name = *ch.pick("name", &["g", "deep one", "\u{e9}", "x.one", "x.onetoc2"]);
            let mut f = Fs::default();
            let mut d = String::from("d");
            for i in 1..depth {
                let n = format!("l{i}");
                f.put(&format!("{d}/t.onetoc2"), toc(&[&n]));
                d = format!("{d}/{n}");
            }
            f.put(&format!("{d}/t.onetoc2"), toc(&[name]));
            let g = format!("{d}/{name}");
            f.put(&g, Nd::Dir);
            for m in ["plain", "t.ONETOC2", "tonetoc2", "s.one", ".onetoc2", "sub/t.onetoc2"] {
                if ch.flag("member") {
                    f.put(&format!("{g}/{m}"), toc(&[]));
                }
            }
            cx.mix(format!("{:?}", f.nodes.keys().collect::<Vec<_>>()).as_bytes());
            let root = realise(cx, &f);
            let got = guarded(cx, f.len(), || {
                Parser::new().parse_notebook(&root.join("d/t.onetoc2")).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
            })?;
            if got.is_ok() { cx.ok += 1 } else { cx.err += 1 }
            says(cx, &got, NO_TABLE, name)
        },
    ));
    v.push(Space::new(
        "damage",
        "a section and a table of contents with any one byte replaced by any of 6 values, cut at any byte or with any byte missing, in each of the 6 ways (the byte replacements from buffers only; thorough: all), the kind itself excepted: never blamed on the operating system, a missing file or the kind of the file",
        move |ch, cx| {
            let via = *ch.pick("via", &VIAS);
            let toc = via.wants_toc();
            let ir = if toc { table() } else { one() };
            let mut b = ir.build(&BuildOpts::default()).bytes();
            let i = ch.choose("byte", b.len());
            let how = ch.choose("change", if deep || via == Via::Buffer { 8 } else { 2 });
            // the kind is stored once
            let k = b.windows(16).position(|w| w == ir.schema).expect("schema");
            let hit = (k..k + 16).contains(&i);
            match how {
                0 => b.truncate(i),
                1 => {
                    b.remove(i);
                }
                h => {
                    let old = b[i];
                    b[i] = [0, 0xff, old ^ 1, old ^ 0x80, old.wrapping_add(1), old << 1][h - 2];
                    if hit || b[i] == old {
                        return Ok(());
                    }
                }
            }
            if how == 1 && i < k + 16 {
                return Ok(());
            }
            cx.mix(&b);
            cx.mix(&[via as u8]);
            // the damage may rename the missing entry to something that is refused
            let (got, _) = via.go(cx, b, if toc { "x.onetoc2" } else { "x.one" })?;
            blames_bytes(cx, &got)
        },
    ));
    v.push(Space::new(
        "system-errors",
        "every file-system call of the 7 scenes of C20 failing with each of up to 10 error codes: an error is returned that carries the description and number of that code, unless the call does not matter for the result",
        move |ch, cx| {
            let sc = ch.pick("scene", &SCENES);
            let mut done = None;
            let out = {
                let ch = &mut *ch;
                let done = &mut done;
                c20::run(cx, sc, &mut |c| {
                    if done.is_some() {
                        return Act::Pass;
                    }
                    let e = c20::errnos(c.op, true);
                    match ch.choose("error", e.len() + 1) {
                        0 => Act::Pass,
                        i => {
                            *done = Some(e[i - 1]);
                            Act::Fail(e[i - 1])
                        }
                    }
                })?
            };
            cx.mix(sc.name.as_bytes());
            cx.mix(&(out.calls as u64).to_le_bytes());
            cx.mix(&done.unwrap_or(0).to_le_bytes());
            cx.outcome = got_hash(&out.got);
            // notebooks that have to be refused may be refused for that
            if sc.name.starts_with("escaping") {
                return Ok(());
            }
            match (&out.got, done) {
                (Err(e), Some(n)) => {
                    let want = std::io::Error::from_raw_os_error(n).to_string();
                    if !e.contains(&want) {
                        return bad("cause lost", format!("{}: a call failed with {want:?} but the error is {e:?}", sc.name));
                    }
                    Ok(())
                }
                (Err(e), None) => bad("refused", format!("{}: refused without a failure: {e}", sc.name)),
                // a failure that changes the answer must not go unreported
                (Ok(_), Some(_)) => c20::judge_faults(cx, sc, &out, false),
                (Ok(_), None) => Ok(()),
            }
        },
    ));
    v.push(Space::new(
        "unreadable-inputs",
        "a section or notebook path that is absent, a directory, below a regular file, a dangling link, a link loop, a name of 300 letters, empty or contains a NUL: an input/output failure, with its number where the system gives one",
        move |ch, cx| {
            let mut f = Fs::default();
            f.put("d/file", Nd::File(F::raw(b"x"))).put("d/dir", Nd::Dir).put("d/dangling", link("nowhere")).put("d/loop", link("loop"));
            let long = "l".repeat(300);
            let (p, e): (String, Option<i32>) = [
                ("d/gone.one".to_string(), Some(libc::ENOENT)),
                ("d/dir".to_string(), Some(libc::EISDIR)),
                ("d/file/x.one".to_string(), Some(libc::ENOTDIR)),
                ("d/dangling".to_string(), Some(libc::ENOENT)),
                ("d/loop".to_string(), Some(libc::ELOOP)),
                (format!("d/{long}"), Some(libc::ENAMETOOLONG)),
                (String::new(), None),
                ("d/a\0b".to_string(), None),
            ][ch.choose("path", 8)]
            .clone();
            let section = ch.flag("section");
            let root = realise(cx, &f);
            let path = if p.is_empty() { PathBuf::new() } else { root.join(&p) };
            cx.mix(p.as_bytes());
            cx.mix(&[section as u8]);
            let got = guarded(cx, 4000, || {
                if section {
                    Parser::new().parse_section(&path).map(|s| obs::section(&s)).map_err(|e| e.to_string())
                } else {
                    Parser::new().parse_notebook(&path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
                }
            })?;
            cx.err += 1;
            cx.outcome = got_hash(&got);
            match got {
                Ok(_) => bad("accepted", format!("{p:?} was accepted")),
                Err(m) if !m.starts_with(IO) => bad("wrong reason", format!("{p:?} is refused with {m:?}")),
                Err(m) => match e.map(|n| std::io::Error::from_raw_os_error(n).to_string()) {
                    Some(w) if !m.contains(&w) => bad("cause lost", format!("{p:?} is refused with {m:?} instead of {w:?}")),
                    _ => Ok(()),
                },
            }
        },
    ));
    v
}
