//! Containment: only files below the directory of the table of contents.
use crate::explore::*;
use crate::fsm::*;
use crate::model::*;

pub const TOC: &str = "top/nb/Open Notebook.onetoc2";

/// A notebook surrounded by things it must not reach. `at` is its directory.
pub fn world() -> Fs {
    let mut f = Fs::default();
    f.put("top/secret.one", sec(0))
        .put("top/nbX/secret.one", sec(1))
        .put("top/nbX/t.onetoc2", toc(&["secret.one"]))
        .put("top/out/secret.one", sec(2))
        .put("top/out/t.onetoc2", toc(&["secret.one"]))
        .put("top/out/back", link("@top/nb"))
        .put("top/out/deep/secret.one", sec(2))
        .put("top/nb/A.one", sec(3))
        .put("top/nb/G/B.one", sec(4))
        .put("top/nb/G/t.onetoc2", toc(&["B.one"]))
        .put("top/nb/G/H/C.one", sec(5))
        .put("top/nb/G/H/t.onetoc2", toc(&["C.one"]))
        .put("top/nb/junk.txt", Nd::File(F::raw(b"not a section")));
    f
}
const COMPS: [&str; 16] = [
    "A.one", "G", "..", ".", "", "B.one", "lo", "ls", "li", "lg", "self", "up", "missing", "nb", "secret.one", "...",
];
fn linked() -> Fs {
    let mut f = world();
    f.put("top/nb/lo", link("../out"))
        .put("top/nb/ls", link("@top/secret.one"))
        .put("top/nb/li", link("A.one"))
        .put("top/nb/lg", link("G/H"))
        .put("top/nb/self", link("."))
        .put("top/nb/up", link(".."))
        .put("top/nb/G/li", link("H/C.one"))
        .put("top/nb/G/lo", link("../A.one"))
        .put("top/nb/G/self", link("../../nb/G"))
        .put("top/nb/G/up", link("@top/nb"));
    f
}

/// where a link may lead, from inside directory `d` of the notebook
const TARGETS: [&str; 40] = [
    "A.one", "./A.one", "G/B.one", "G", "G/", "G/H", ".", "..", "../", "../nb", "../nb/", "../nb/A.one", "../nb/G", "../nbX", "../nbX/secret.one",
    "../out", "../out/secret.one", "../out/back", "../out/back/A.one", "../out/back/G", "../secret.one", "../..", "../../top/nb/A.one",
    "@", "@top", "@top/nb", "@top/nb/", "@top/nb/A.one", "@top/nb/G/B.one", "@top/nb/G", "@top/nbX", "@top/nbX/secret.one", "@top/secret.one",
    "@top/out/../nb/A.one", "G/../A.one", "G/../../secret.one", "nowhere", "@top/nowhere", "E", "X",
];

pub fn spaces(t: Tier) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    let n = if deep { 4 } else { 3 };
    v.push(Space::new(
        "entry-names",
        format!("every entry name of 1..={n} of {} components (benign, parent, empty, links out, in and back, missing), with or without a leading and a trailing slash, in the top or a nested table of contents", COMPS.len()),
        move |ch, cx| {
            let mut f = linked();
            let k = 1 + ch.choose("components", n);
            let mut parts = vec![];
            for _ in 0..k {
                parts.push(*ch.pick("component", &COMPS));
            }
            let name = format!(
                "{}{}{}",
                ["", "/"][ch.choose("leading", 2)],
                parts.join("/"),
                if k < 4 { ["", "/"][ch.choose("trailing", 2)] } else { "" }
            );
            if ch.flag("nested") {
                f.put("top/nb/G/t.onetoc2", toc(&[&name]));
                f.put(TOC, toc(&["G"]));
            } else {
                f.put(TOC, toc(&[&name]));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "absolute",
        "absolute names of files that exist inside and outside the notebook, plain or with parent components or doubled slashes, in the top or a nested table of contents",
        move |ch, cx| {
            let mut f = linked();
            let root = cx.scratch_dir().join("w");
            let tail = *ch.pick(
                "target",
                &["top/nb/A.one", "top/secret.one", "top/out", "top/nb/G", "top/nb", "", "top/nb/G/B.one", "top/nb/li", "top/nbX/secret.one"],
            );
            let r = root.to_str().unwrap();
            let name = match ch.choose("form", 5) {
                0 => format!("{r}/{tail}"),
                1 => format!("/{r}/{tail}"),
                2 => format!("{}/../w/{tail}", r),
                3 => format!("{}/{tail}", r.replace('/', "//")),
                _ => format!(".{r}/{tail}"),
            };
            if ch.flag("nested") {
                f.put("top/nb/G/t.onetoc2", toc(&[&name]));
                f.put(TOC, toc(&["G"]));
            } else {
                f.put(TOC, toc(&[&name]));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "parent-chains",
        "1..=24 parent components followed by the path of an existing file or directory outside, with benign components before or between",
        move |ch, cx| {
            let mut f = linked();
            let n = 1 + ch.choose("parents", 24);
            let tail = *ch.pick("target", &["secret.one", "out", "nb/A.one", "etc/hostname", "nbX/secret.one"]);
            let pre = *ch.pick("before", &["", "G/", "A.one/", "./", "missing/", "lo/", "self/"]);
            let sep = *ch.pick("between", &["../", "..//", ".././", "G/../../"]);
            let name = format!("{pre}{}{tail}", sep.repeat(n));
            let nested = ch.flag("nested");
            if nested {
                f.put("top/nb/G/t.onetoc2", toc(&[&name]));
                f.put(TOC, toc(&["G"]));
            } else {
                f.put(TOC, toc(&[&name]));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "links",
        format!(
            "an entry E (or G/E, or E/A.one, E/B.one, E/secret.one) that is a link with any of {0} targets (inside, outside, a directory whose name starts alike, the notebook itself, parents, dangling, cyclic, chained through X, which is a link to any of {0} targets as well)",
            TARGETS.len()
        ),
        move |ch, cx| {
            let mut f = world();
            let at = ch.choose("place", 5);
            let t1 = *ch.pick("target", &TARGETS);
            let d = if at == 1 { "top/nb/G" } else { "top/nb" };
            f.put(&format!("{d}/E"), link(t1));
            if t1 == "X" {
                f.put(&format!("{d}/X"), link(ch.pick("second target", &TARGETS)));
            }
            let e = ["E", "E", "E/A.one", "E/B.one", "E/secret.one"][at];
            let other = ch.flag("benign neighbour");
            if at == 1 {
                let names: Vec<&str> = if other { vec!["B.one", e] } else { vec![e] };
                f.put("top/nb/G/t.onetoc2", toc(&names));
                match ch.choose("named as", 2) {
                    0 => f.put(TOC, toc(&["G"])),
                    _ => f.put(TOC, toc(&["A.one", "G/E"])),
                };
            } else {
                let names: Vec<&str> = if other { vec!["A.one", e] } else { vec![e] };
                f.put(TOC, toc(&names));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "two-links",
        format!("entries E and G/E at once, each a file, a link with any of {} targets, or absent; the group's own table of contents names E as well", TARGETS.len()),
        move |ch, cx| {
            let mut f = world();
            let few: &[&str] = if deep { &TARGETS } else { &["G/H", "..", "../secret.one", "@top/nb", "@top/nb/A.one", "../out", "../out/back/G", "H"] };
            for d in ["top/nb", "top/nb/G"] {
                let c = ch.choose("target", few.len() + 2);
                if c < few.len() {
                    f.put(&format!("{d}/E"), link(few[c]));
                } else if c == few.len() {
                    f.put(&format!("{d}/E"), sec(6));
                }
            }
            f.put("top/nb/G/t.onetoc2", toc(&["E", "B.one"]));
            f.put(TOC, toc(ch.pick("names", &[&["E", "G"][..], &["G", "E"], &["G/E", "A.one"], &["G"]])));
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "group-tables",
        "the table of contents of a group at depth 1..=3 is a file, absent, a directory, or a link to one of 14 places inside and outside the group and the notebook; the group directory itself is real or a link inside or outside",
        move |ch, cx| {
            let mut f = world();
            let d = 1 + ch.choose("depth", 3);
            let mut p = "top/nb".to_string();
            for i in 0..d {
                let n = format!("g{i}");
                let tocp = if i == 0 { TOC.to_string() } else { format!("{p}/t.onetoc2") };
                f.put(&tocp, toc(&["A.one", &n]));
                f.put(&format!("{p}/A.one"), sec(3));
                p = format!("{p}/{n}");
            }
            match ch.choose("directory", 5) {
                0 => {
                    f.put(&format!("{p}/S.one"), sec(6));
                }
                1 => {
                    f.put(&format!("{}/real/S.one", parent(&p)), sec(6));
                    f.put(&p, link("real"));
                    p = format!("{}/real", parent(&p));
                }
                2 => {
                    f.put("top/ext/S.one", sec(6));
                    f.put(&p, link("@top/ext"));
                    p = "top/ext".into();
                }
                3 => {
                    f.put("top/nb/ext/S.one", sec(6));
                    f.put(&p, link("@top/nb/ext"));
                    p = "top/nb/ext".into();
                }
                _ => {
                    f.put(&p, link(&format!("@{}", parent(&p))));
                    return check_fs(cx, &f, TOC);
                }
            }
            f.put(&format!("{p}/in/x.onetoc2"), toc(&["S.one"]));
            f.put(&format!("{p}/in/plain"), Nd::File(F::names(&["S.one"])));
            f.put(&format!("{}/plain", parent(&p)), Nd::File(F::names(&["S.one", "A.one"])));
            f.put("top/out/plain", Nd::File(F::names(&["secret.one"])));
            let t = format!("{p}/t.onetoc2");
            let c = ch.choose("table", 17);
            match c {
                0 => f.put(&t, toc(&["S.one"])),
                1 => &mut f,
                2 => f.put(&t, Nd::Dir),
                _ => f.put(
                    &t,
                    link(
                        [
                            "in/plain", "in/x.onetoc2", "../plain", "@top/out/plain", "@top/out/t.onetoc2", "@top/nb/Open Notebook.onetoc2",
                            "../t.onetoc2", "nowhere", "t.onetoc2", ".", "..", "S.one", "@top/nbX/t.onetoc2", "../../nbX/t.onetoc2",
                        ][c - 3],
                    ),
                ),
            };
            if ch.flag("section too") {
                f.put(&format!("{p}/u.one"), link("@top/secret.one"));
            }
            check_fs(cx, &f, TOC)
        },
    ));
    v.push(Space::new(
        "sibling-names",
        "notebook directories and outside directories whose names extend each other (nb, nb2, nb.one, n, NB, 'nb ', nb/..) with a link between them",
        move |ch, cx| {
            const D: [&str; 9] = ["nb", "nb2", "nb.one", "n", "NB", "nb ", "nb-", "b", "nbnb"];
            let a = *ch.pick("notebook", &D);
            let b = *ch.pick("other", &D);
            let mut f = Fs::default();
            f.put(&format!("{a}/A.one"), sec(1)).put(&format!("{a}/sub/B.one"), sec(2)).put(&format!("{a}/sub/t.onetoc2"), toc(&["B.one"]));
            f.put(&format!("{b}/A.one"), sec(1)).put(&format!("{b}/sub/B.one"), sec(2)).put(&format!("{b}/sub/t.onetoc2"), toc(&["B.one"]));
            let abs = ch.flag("absolute");
            let tgt = ch.pick("target", &["A.one", "sub", "sub/B.one", ""]);
            f.put(&format!("{a}/E"), link(&if abs { format!("@{b}/{tgt}") } else { format!("../{b}/{tgt}") }));
            let tocp = format!("{a}/t.onetoc2");
            f.put(&tocp, toc(&["A.one", "E"]));
            check_fs(cx, &f, &tocp)
        },
    ));
    v.push(Space::new(
        "plain-names",
        "every plain file name of up to 3 of 20 pieces (punctuation, spaces, dots, capitals, non-ASCII, device-like names) is accepted as a section or a group",
        move |ch, cx| {
            const P: [&str; 20] = [
                "a", "Z", " ", ".", "-", "_", "+", ",", "^", "(", "#", "%", "&", "é", "日", "😀", "'", "con", "one", "~",
            ];
            let n = 1 + ch.choose("pieces", 3);
            let name: String = (0..n).map(|_| *ch.pick("piece", &P)).collect();
            let name = if ch.flag("extension") { format!("{name}.one") } else { name };
            let mut f = Fs::default();
            if crate::util::entry_name(&name) == Some(false) {
                return Ok(());
            }
            match ch.choose("as", 3) {
                0 => f.put(&format!("nb/{name}"), sec(1)),
                1 => f.put(&format!("nb/{name}/t.onetoc2"), toc(&[])),
                _ => f.put(&format!("nb/g/{name}"), sec(1)).put("nb/g/t.onetoc2", toc(&[&name])),
            };
            f.put("nb/t.onetoc2", toc(&[&name, "g"]));
            let _ = xo(1);
            check_fs(cx, &f, "nb/t.onetoc2")
        },
    ));
    v.push(Space::new(
        "unsafe-characters",
        "every character below 160, and 40 other control, space, direction and lookalike characters, at each place of 12 names (before, behind or between letters and dots, in a directory or the file) of an existing or missing section or group, in the top or a nested table of contents",
        move |ch, cx| {
            const N: [&str; 12] = ["@", "@.one", "a@.one", "a@b.one", "a.@one", "a.b@c.one", "a.one@", "a.one.@", "@.a.one", "d@/a.one", "d.e@f/a.one", "d/a.one@"];
            const MORE: [u32; 40] = [
                0xa0, 0xa1, 0xad, 0x378, 0x61c, 0x1680, 0x180e, 0x2000, 0x2002, 0x2003, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2024, 0x2028, 0x2029, 0x202a,
                0x202b, 0x202c, 0x202d, 0x202e, 0x202f, 0x2044, 0x205f, 0x2060, 0x2066, 0x2069, 0x2215, 0x29f8, 0x3000, 0xe000, 0xfeff, 0xff0e, 0xff0f, 0xfffd, 0xffff, 0x1f4a9,
            ];
            let k = ch.choose("character", 159 + MORE.len());
            let c = char::from_u32(if k < 159 { k as u32 + 1 } else { MORE[k - 159] }).unwrap();
            let name = ch.pick("name", &N).replace('@', &c.to_string());
            if c == '/' || name == "." {
                return Ok(());
            }
            let mut f = Fs::default();
            let d = ["nb", "nb/g"][ch.choose("level", 2)];
            f.put("nb/A.one", sec(0));
            match ch.choose("as", 3) {
                0 => &mut f,
                1 => f.put(&format!("{d}/{name}"), sec(1)),
                _ => f.put(&format!("{d}/{name}/t.onetoc2"), toc(&[])),
            };
            if d == "nb/g" {
                f.put("nb/g/t.onetoc2", toc(&["x.one", &name]));
                f.put("nb/t.onetoc2", toc(&["g", "A.one"]));
            } else {
                f.put("nb/t.onetoc2", toc(&["A.one", &name]));
            }
            check_fs(cx, &f, "nb/t.onetoc2")
        },
    ));
    v
}
