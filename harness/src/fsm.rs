//! A model of a small file system around a notebook: what parsing a table of
//! contents in it has to return and which files may be opened for that.
use crate::enc::*;
use crate::explore::*;
use crate::model::*;
use crate::obs;
use crate::store::*;
use crate::sys;
use crate::tree::*;
use crate::util::*;
use onenote_parser::Parser;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, LazyLock};

#[derive(Clone)]
pub enum F {
    Section(Arc<StoreIR>, Arc<Vec<u8>>),
    Toc(Arc<StoreIR>, Arc<Vec<u8>>),
    /// not a OneNote file
    Raw(Arc<Vec<u8>>),
}
impl F {
    pub fn bytes(&self) -> &Arc<Vec<u8>> {
        match self {
            F::Section(_, b) | F::Toc(_, b) | F::Raw(b) => b,
        }
    }
    pub fn sec(ir: StoreIR) -> F {
        let b = ir.build(&BuildOpts::default()).bytes();
        F::Section(Arc::new(ir), Arc::new(b))
    }
    pub fn toc(ir: StoreIR) -> F {
        let b = ir.build(&BuildOpts::default()).bytes();
        F::Toc(Arc::new(ir), Arc::new(b))
    }
    pub fn raw(b: &[u8]) -> F {
        F::Raw(Arc::new(b.to_vec()))
    }
    pub fn names(n: &[&str]) -> F {
        let v: Vec<(&str, u32)> = n.iter().enumerate().map(|(i, s)| (*s, i as u32 + 1)).collect();
        F::toc(toc_flat(&v))
    }
}
#[derive(Clone)]
pub enum Nd {
    File(F),
    Dir,
    /// target; a leading `@` stands for the absolute path of the world
    Link(String),
}

/// sections told apart by their text
pub static SECS: LazyLock<Vec<F>> = LazyLock::new(|| {
    (0..8)
        .map(|i| {
            let mut b = B::new();
            let t = b.para(&format!("section {i}"));
            let o = b.wrap(&[t]);
            F::sec(section1(b, &[o], None))
        })
        .collect()
});
pub fn sec(i: usize) -> Nd {
    Nd::File(SECS[i].clone())
}
pub fn link(s: &str) -> Nd {
    Nd::Link(s.to_string())
}
pub fn toc(names: &[&str]) -> Nd {
    Nd::File(F::names(names))
}

/// paths are relative to the world, without leading or trailing slash
#[derive(Clone, Default)]
pub struct Fs {
    pub nodes: BTreeMap<String, Nd>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    At(String),
    Missing,
    /// a file used as a directory, too many links
    Odd,
    /// leaves the world
    Out,
}
fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else { format!("{a}/{b}") }
}
pub fn parent(p: &str) -> String {
    p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default()
}
pub fn leaf(p: &str) -> &str {
    p.rsplit('/').next().unwrap()
}
/// `b` is strictly below `a`
pub fn below(b: &str, a: &str) -> bool {
    b != a && (a.is_empty() || b.strip_prefix(a).is_some_and(|r| r.starts_with('/')))
}
impl Fs {
    pub fn put(&mut self, p: &str, n: Nd) -> &mut Fs {
        let mut d = parent(p);
        while !d.is_empty() {
            let e = self.nodes.entry(d.clone()).or_insert(Nd::Dir);
            if matches!(e, Nd::File(_)) {
                *e = Nd::Dir;
            }
            d = parent(&d);
        }
        if matches!(n, Nd::File(_)) {
            // what was a directory has become a file
            self.nodes.retain(|k, _| !below(k, p));
        }
        self.nodes.insert(p.to_string(), n);
        self
    }
    pub fn kids(&self, d: &str) -> Vec<&String> {
        self.nodes.keys().filter(|k| parent(k) == d && **k != d).collect()
    }
    /// the file, directory or nothing a path leads to
    pub fn resolve(&self, path: &str) -> Res {
        let mut todo: Vec<String> = path.split('/').rev().map(|s| s.to_string()).collect();
        let mut at = String::new();
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if !at.is_empty() && !matches!(self.nodes.get(&at), Some(Nd::Dir)) {
                return Res::Odd;
            }
            match &c[..] {
                "" | "." => continue,
                ".." => {
                    if at.is_empty() {
                        return Res::Out;
                    }
                    at = parent(&at);
                    continue;
                }
                _ => {}
            }
            let p = join(&at, &c);
            match self.nodes.get(&p) {
                None => return Res::Missing,
                Some(Nd::Link(t)) => {
                    links += 1;
                    if links > 30 {
                        return Res::Odd;
                    }
                    let t = match t.strip_prefix('@') {
                        Some(r) => {
                            at = String::new();
                            r
                        }
                        None if t.starts_with('/') => return Res::Out,
                        None => t,
                    };
                    todo.extend(t.split('/').rev().map(|s| s.to_string()));
                }
                Some(_) => at = p,
            }
        }
        Res::At(at)
    }
    pub fn file(&self, p: &str) -> Option<&F> {
        match self.nodes.get(p) {
            Some(Nd::File(f)) => Some(f),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.values().map(|n| if let Nd::File(f) = n { f.bytes().len() } else { 64 }).sum()
    }
}

/// What the model promises about a notebook.
pub struct Promise {
    pub exp: XR<T>,
    /// an entry has an odd name, which may be refused
    pub odd: bool,
    /// files that may be opened (resolved, relative to the world)
    pub files: BTreeSet<String>,
    /// directories that may be listed
    pub dirs: BTreeSet<String>,
}

#[derive(Default)]
struct Bads {
    err: bool,
    any: bool,
}
impl Bads {
    fn add(&mut self, x: &X) {
        match x {
            X::Err => self.err = true,
            X::Any => self.any = true,
        }
    }
    fn get(&self) -> XR<()> {
        if self.err {
            Err(X::Err)
        } else if self.any {
            Err(X::Any)
        } else {
            Ok(())
        }
    }
}

impl Promise {
    pub fn sure(self) -> XR<T> {
        if self.odd && self.exp.is_ok() { Err(X::Any) } else { self.exp }
    }
}
pub fn promise(fs: &Fs, toc: &str) -> Promise {
    let mut p = Promise { exp: Err(X::Any), odd: false, files: BTreeSet::new(), dirs: BTreeSet::new() };
    p.exp = match fs.resolve(toc) {
        Res::At(c) if fs.file(&c).is_some() => {
            p.files.insert(c.clone());
            notebook(fs, toc, &c, 0, &mut p)
        }
        Res::At(c) => {
            p.files.insert(c);
            Err(X::Err)
        }
        _ => Err(X::Err),
    };
    p
}

/// `toc` as named, `at` the file it is
fn notebook(fs: &Fs, toc: &str, at: &str, depth: usize, p: &mut Promise) -> XR<T> {
    let base = parent(toc);
    let Res::At(canon) = fs.resolve(&base) else { return Err(X::Any) };
    let F::Toc(ir, _) = fs.file(at).unwrap() else { return Err(X::Err) };
    let (names, color) = expect_toc(ir)?;
    let mut bads = Bads::default();
    let mut out = vec![];
    for n in &names {
        match entry_name(n) {
            Some(true) => {}
            Some(false) => {
                bads.add(&X::Err);
                continue;
            }
            None => p.odd = true,
        }
        let comps: Vec<&str> = n.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let lex = join(&base, &comps.join("/"));
        let bin = comps.last() == Some(&"OneNote_RecycleBin");
        let c = match fs.resolve(&lex) {
            Res::Missing => continue,
            Res::Odd => {
                bads.add(&X::Any);
                continue;
            }
            Res::Out => {
                bads.add(if bin { &X::Any } else { &X::Err });
                continue;
            }
            Res::At(c) => c,
        };
        if !below(&c, &canon) {
            bads.add(if bin { &X::Any } else { &X::Err });
            continue;
        }
        if bin {
            continue;
        }
        let r = match fs.file(&c) {
            Some(F::Section(ir, _)) => {
                p.files.insert(c.clone());
                expect_section(ir, leaf(&lex))
            }
            Some(_) => {
                p.files.insert(c.clone());
                Err(X::Err)
            }
            None => group(fs, &lex, &c, depth + 1, p).map(|e| T::N("group", vec![("name", T::s(leaf(&lex))), ("entries", e)])),
        };
        match r {
            Ok(t) => out.push(t),
            Err(x) => bads.add(&x),
        }
    }
    bads.get()?;
    Ok(T::N("notebook", vec![("color", color), ("entries", T::L(out))]))
}

fn group(fs: &Fs, lex: &str, canon: &str, depth: usize, p: &mut Promise) -> XR<T> {
    if depth > 40 {
        return Err(X::Any);
    }
    p.dirs.insert(canon.to_string());
    let mut tocs: Vec<String> = vec![];
    for k in fs.kids(canon) {
        let n = leaf(k);
        if n.len() > 8 && n.ends_with(".onetoc2") {
            tocs.push(n.to_string());
        }
    }
    let mut rs = vec![];
    for n in &tocs {
        let t = join(lex, n);
        rs.push(match fs.resolve(&t) {
            Res::At(c) if fs.file(&c).is_some() && below(&c, canon) => {
                let linked = join(canon, n) != c;
                p.files.insert(c.clone());
                let r = notebook(fs, &t, &c, depth, p);
                if linked { Err(X::Any) } else { r }
            }
            Res::At(c) if fs.file(&c).is_none() => {
                if below(&c, canon) {
                    p.files.insert(c);
                }
                Err(X::Any)
            }
            Res::Odd => Err(X::Any),
            _ => Err(X::Err),
        });
    }
    match rs.len() {
        0 => Err(X::Err),
        1 => rs.pop().unwrap().map(|t| t.get("entries").clone()),
        // several tables of contents: whichever is taken
        _ if rs.iter().all(|r| matches!(r, Err(X::Err))) => Err(X::Err),
        _ => Err(X::Any),
    }
}

// ------------------------------------------------------------ reality

thread_local! {
    static LIVE: RefCell<(PathBuf, BTreeMap<String, Nd>)> = RefCell::new(Default::default());
}
fn same(a: &Nd, b: &Nd) -> bool {
    match (a, b) {
        (Nd::Dir, Nd::Dir) => true,
        (Nd::Link(x), Nd::Link(y)) => x == y,
        (Nd::File(x), Nd::File(y)) => Arc::ptr_eq(x.bytes(), y.bytes()) || x.bytes() == y.bytes(),
        _ => false,
    }
}
/// Make the world exist; returns its root. Only differences from the previous
/// world of this thread are written.
pub fn realise(cx: &mut Cx, fs: &Fs) -> PathBuf {
    let root = cx.scratch_dir().join("w");
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 != root || !root.is_dir() {
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&root).unwrap();
            *l = (root.clone(), BTreeMap::new());
        }
        let gone: Vec<String> =
            l.1.iter().filter(|(k, v)| !fs.nodes.get(*k).is_some_and(|n| same(n, v))).map(|(k, _)| k.clone()).collect();
        for k in gone.iter().rev() {
            let v = l.1.get(k).unwrap();
            match v {
                // a directory that goes away was emptied before (its entries sort after it)
                Nd::Dir => std::fs::remove_dir(root.join(k)).unwrap(),
                _ => std::fs::remove_file(root.join(k)).unwrap(),
            }
            l.1.remove(k);
        }
        for (k, v) in &fs.nodes {
            if l.1.contains_key(k) {
                continue;
            }
            let p = root.join(k);
            match v {
                Nd::Dir => std::fs::create_dir(&p).unwrap(),
                Nd::File(f) => std::fs::write(&p, &f.bytes()[..]).unwrap(),
                Nd::Link(t) => {
                    let t = match t.strip_prefix('@') {
                        Some(r) => format!("{}/{r}", root.display()),
                        None => t.clone(),
                    };
                    std::os::unix::fs::symlink(t, &p).unwrap()
                }
            }
            l.1.insert(k.clone(), v.clone());
        }
    });
    root
}
pub fn mix_fs(cx: &mut Cx, fs: &Fs) {
    for (k, v) in &fs.nodes {
        cx.mix(k.as_bytes());
        match v {
            Nd::Dir => cx.mix(b"/"),
            Nd::File(f) => cx.mix(f.bytes()),
            Nd::Link(t) => cx.mix(t.as_bytes()),
        }
    }
}

/// The calls the library made
#[derive(Default, Debug, Clone)]
pub struct Log {
    pub calls: Vec<sys::Call>,
    pub opened: Vec<(String, bool)>,
}

pub fn parse_logged(cx: &mut Cx, path: &Path, len: usize, section: bool) -> Result<(Got, Log), Bad> {
    let mut log = Log::default();
    let lg = &mut log;
    let r = guarded(cx, len, || {
        sys::with(
            Box::new(|ev| {
                match ev {
                    sys::Ev::Call(c) => lg.calls.push(c.clone()),
                    sys::Ev::Opened(p, d) => lg.opened.push((p.to_string(), d)),
                }
                sys::Act::Pass
            }),
            || {
                if section {
                    Parser::new().parse_section(path).map(|s| obs::section(&s)).map_err(|e| e.to_string())
                } else {
                    Parser::new().parse_notebook(path).map(|s| obs::notebook(&s)).map_err(|e| e.to_string())
                }
            },
        )
    })?;
    if r.is_ok() {
        cx.ok += 1
    } else {
        cx.err += 1
    }
    Ok((r, log))
}

/// Nothing but the promised files is opened and nothing is written.
pub fn judge_log(cx: &mut Cx, root: &Path, p: &Promise, log: &Log) -> R {
    if let Some(c) = log.calls.iter().find(|c| c.op == sys::Op::Write) {
        return bad("written", format!("parsing changed the file system: {c:?}"));
    }
    let real = root.canonicalize().unwrap();
    for (o, dir) in &log.opened {
        let rel = Path::new(o).strip_prefix(&real).ok().map(|r| r.to_string_lossy().into_owned());
        let fine = match &rel {
            None => false,
            Some(r) => p.dirs.contains(r) || (!dir && p.files.contains(r)),
        };
        if !fine {
            return bad("opened outside", format!("{} was opened although no table of contents inside leads to it", rel.unwrap_or(o.clone())));
        }
    }
    cx.count("files_opened", log.opened.len() as u64);
    cx.count("system_calls", log.calls.len() as u64);
    Ok(())
}

/// Parse the notebook and compare with the promise.
pub fn check_fs(cx: &mut Cx, fs: &Fs, toc: &str) -> R {
    mix_fs(cx, fs);
    let p = promise(fs, toc);
    let root = realise(cx, fs);
    let (got, log) = parse_logged(cx, &root.join(toc), fs.len(), false)?;
    if cx.verbose {
        for (k, v) in &fs.nodes {
            eprintln!(
                "  {k} {}",
                match v {
                    Nd::Dir => "/".to_string(),
                    Nd::Link(t) => format!("-> {t}"),
                    Nd::File(F::Toc(ir, _)) => format!("toc {:?}", expect_toc(ir).map(|x| x.0)),
                    Nd::File(F::Section(..)) => "section".into(),
                    Nd::File(F::Raw(b)) => format!("{} bytes", b.len()),
                }
            );
        }
        for c in &log.calls {
            eprintln!("  call {c:?}");
        }
        eprintln!("  opened {:?}", log.opened);
        if let Err(e) = &got {
            eprintln!("  error {e}");
        }
    }
    judge_log(cx, &root, &p, &log)?;
    if p.odd && got.is_err() {
        cx.outcome = got_hash(&got);
        return Ok(());
    }
    judge(cx, &p.exp, &got)
}
