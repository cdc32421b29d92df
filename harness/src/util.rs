//! Glue between the model and the library.
use crate::enc::*;
use crate::explore::*;
use crate::model::*;
use crate::obs;
use crate::store::*;
use crate::tree::*;
use onenote_parser::Parser;
use std::path::Path;

pub const NAME: &str = "Sec A.one";

pub type Got = Result<T, String>;

/// Parse a section buffer under guard.
pub fn parse_buf(cx: &mut Cx, bytes: &[u8], name: &str) -> Result<Got, Bad> {
    if cx.keep_bytes {
        cx.last_bytes = bytes.to_vec();
    }
    let r = guarded(cx, bytes.len(), || {
        Parser::new().parse_section_buffer(bytes, Path::new(name)).map(|s| obs::section(&s)).map_err(|e| e.to_string())
    })?;
    if r.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    Ok(r)
}

pub fn got_hash(g: &Got) -> u64 {
    match g {
        Ok(t) => hash(t, 1),
        Err(_) => 2,
    }
}

/// Compare the library's answer with the model's prediction.
pub fn judge(cx: &mut Cx, exp: &XR<T>, got: &Got) -> R {
    cx.outcome = got_hash(got);
    if cx.verbose {
        eprintln!("expected: {}", match exp { Ok(_) => "a result".to_string(), Err(e) => format!("{e:?}") });
        eprintln!("got: {}", match got { Ok(_) => "a result".to_string(), Err(e) => format!("error {e}") });
    }
    match (exp, got) {
        (Err(X::Any), _) => Ok(()),
        (Err(X::Err), Err(_)) => Ok(()),
        (Err(X::Err), Ok(_)) => bad("accepted", "an error was required, but the library returned a result"),
        (Ok(_), Err(e)) => bad(format!("rejected: {}", keyify(e)), format!("the library failed: {e}")),
        (Ok(a), Ok(b)) => match diff(a, b) {
            None => Ok(()),
            Some((k, d)) => bad(format!("mismatch: {k}"), d),
        },
    }
}
pub fn keyify(e: &str) -> String {
    let mut o = String::new();
    for c in e.chars().take(90) {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#')
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// Build the store, parse it and compare with the model.
pub fn check_store(cx: &mut Cx, ir: &StoreIR, bo: &BuildOpts, o: &Opts) -> R {
    let (bytes, _) = ir.build(bo).encode(o);
    cx.mix(&bytes);
    let exp = expect_section(ir, NAME);
    let got = parse_buf(cx, &bytes, NAME)?;
    judge(cx, &exp, &got)
}
pub fn check1(cx: &mut Cx, ir: &StoreIR) -> R {
    check_store(cx, ir, &BuildOpts::default(), &Opts::default())
}
/// The package must be rejected.
pub fn check_reject(cx: &mut Cx, bytes: &[u8]) -> R {
    cx.mix(bytes);
    let got = parse_buf(cx, bytes, NAME)?;
    judge(cx, &Err(X::Err), &got)
}
/// The package must yield exactly `exp`.
pub fn check_bytes(cx: &mut Cx, bytes: &[u8], exp: &XR<T>) -> R {
    cx.mix(bytes);
    let got = parse_buf(cx, bytes, NAME)?;
    judge(cx, exp, &got)
}

/// Parse a notebook by the path of its table of contents.
pub fn parse_nb(cx: &mut Cx, path: &Path, len: usize) -> Result<Got, Bad> {
    let r = guarded(cx, len, || {
        Parser::new().parse_notebook(path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
    })?;
    if r.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    Ok(r)
}
/// Parse a table of contents as a notebook in an otherwise empty directory.
pub fn parse_toc_bytes(cx: &mut Cx, bytes: &[u8]) -> Result<Got, Bad> {
    if cx.keep_bytes {
        cx.last_bytes = bytes.to_vec();
    }
    let d = cx.scratch_dir();
    let f = d.join("Open Notebook.onetoc2");
    std::fs::write(&f, bytes).unwrap();
    parse_nb(cx, &f, bytes.len())
}


/// What a stored entry name promises: `Some(true)` it is plain and has to be
/// accepted, `Some(false)` it has to be refused, `None` neither.
pub fn entry_name(s: &str) -> Option<bool> {
    if s.is_empty() || s.starts_with('/') {
        return Some(false);
    }
    let mut plain = true;
    let mut any = false;
    for c in s.split('/') {
        match c {
            "" | "." => continue,
            ".." => return Some(false),
            _ => {}
        }
        any = true;
        // characters that no portable file name contains
        if c.chars().any(|ch| ch < ' ' || "<>:\"\\|?*".contains(ch)) {
            return Some(false);
        }
        let stem = c.split('.').next().unwrap().to_ascii_uppercase();
        let reserved = ["CON", "PRN", "AUX", "NUL"].contains(&&stem[..])
            || (stem.chars().count() == 4 && (stem.starts_with("COM") || stem.starts_with("LPT")));
        let odd = |ch: char| {
            ch.is_control()
                || "<>:\"\\|?*".contains(ch)
                || (ch.is_whitespace() && ch != ' ')
                || matches!(ch, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}')
        };
        if c.chars().any(odd) || c.ends_with([' ', '.']) || c.starts_with('.') || reserved || c.len() > 200 {
            plain = false;
        }
    }
    if !any {
        return Some(false);
    }
    if plain { Some(true) } else { None }
}
