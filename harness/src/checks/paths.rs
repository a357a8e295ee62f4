//! C18: include paths, names and shadowing, against a reference that works on path text.
use super::*;
use crate::scratch::Scratch;
use crate::world::GOOGLE;
use protox::file::{FileResolver, IncludeFileResolver};
use protox::Compiler;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

type B = Vec<u8>;

fn os(b: &[u8]) -> &Path {
    Path::new(OsStr::from_bytes(b))
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

struct Parts {
    abs: bool,
    dot: bool,
    comps: Vec<B>,
}
/// components without `.` and empty ones
fn parts(p: &[u8]) -> Parts {
    let raw: Vec<&[u8]> = p.split(|c| *c == b'/').collect();
    Parts {
        abs: p.first() == Some(&b'/'),
        dot: raw[0] == b".",
        comps: raw.iter().filter(|c| !c.is_empty() && **c != b".").map(|c| c.to_vec()).collect(),
    }
}
fn as_name(comps: &[B]) -> Option<String> {
    if comps.is_empty() || comps.iter().any(|c| c == b"..") {
        return None;
    }
    let v: Result<Vec<&str>, _> = comps.iter().map(|c| std::str::from_utf8(c)).collect();
    v.ok().map(|v| v.join("/"))
}
/// the name a path has under one include directory
fn under(include: &[u8], path: &[u8]) -> Option<String> {
    let (i, p) = (parts(include), parts(path));
    if i.abs != p.abs || p.comps.len() < i.comps.len() || p.comps[..i.comps.len()] != i.comps[..] {
        return None;
    }
    as_name(&p.comps[i.comps.len()..])
}
fn join(include: &[u8], name: &str) -> B {
    let mut v = include.to_vec();
    if !v.is_empty() && v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend(name.as_bytes());
    v
}

#[derive(Debug, PartialEq)]
enum Found {
    Nothing,
    Bundled,
    At(B),
    Broken(B),
}
/// the first include directory that has something of that name
fn lookup(includes: &[B], name: &str) -> Found {
    for i in includes {
        let p = join(i, name);
        match std::fs::metadata(os(&p)) {
            Ok(m) if m.is_file() => return Found::At(p),
            Ok(_) => return Found::Broken(p),
            Err(_) => {}
        }
    }
    if GOOGLE.iter().any(|g| g.0 == name) {
        return Found::Bundled;
    }
    Found::Nothing
}

#[derive(Debug)]
enum Want {
    Ok(String, Found),
    NotIncluded,
    Shadowed(String, B),
    Io(String),
    ImportMissing(String),
    Cycle,
}

fn expect(includes: &[B], path: &[u8], imports: &BTreeMap<B, Vec<String>>) -> Want {
    let resolved = includes.iter().find_map(|i| under(i, path));
    let p = parts(path);
    let name = match &resolved {
        Some(n) => n.clone(),
        None => match as_name(&p.comps) {
            Some(n) if !p.abs && !p.dot => n,
            _ => return Want::NotIncluded,
        },
    };
    match lookup(includes, &name) {
        Found::Nothing => Want::NotIncluded,
        Found::Broken(_) => Want::Io(name),
        Found::Bundled => Want::Ok(name, Found::Bundled),
        Found::At(at) => {
            let q = parts(&at);
            if resolved.is_some() && (q.abs, &q.comps) != (p.abs, &p.comps) {
                return Want::Shadowed(name, at);
            }
            match reach(includes, &name, imports, &mut vec![]) {
                Some(Want::NotIncluded) | None => Want::Ok(name, Found::At(at)),
                Some(w) => w,
            }
        }
    }
}
/// the first thing wrong with the imports of a file
fn reach(includes: &[B], name: &str, imports: &BTreeMap<B, Vec<String>>, seen: &mut Vec<String>) -> Option<Want> {
    if seen.iter().any(|s| s == name) {
        return Some(Want::Cycle);
    }
    seen.push(name.to_string());
    if let Found::At(at) = lookup(includes, name) {
        let key = std::fs::canonicalize(os(&at)).unwrap();
        for i in imports.get(key.as_os_str().as_bytes()).into_iter().flatten() {
            match lookup(includes, i) {
                Found::Nothing => return Some(Want::ImportMissing(name.to_string())),
                Found::Broken(_) => return Some(Want::Io(i.clone())),
                _ => {
                    if let Some(w) = reach(includes, i, imports, seen) {
                        return Some(w);
                    }
                }
            }
        }
    }
    seen.pop();
    None
}

/// a way of writing a directory or file path
fn spell(t: &mut Tape, p: &[u8], root: &[u8], dir: bool) -> B {
    let comps: Vec<B> = parts(p).comps;
    let mut v: B = vec![];
    if t.pct(25) {
        v.extend(root);
        v.push(b'/');
    } else if t.pct(20) {
        v.extend(b"./");
    }
    for (i, c) in comps.iter().enumerate() {
        if i > 0 {
            v.push(b'/');
            if t.pct(8) {
                v.extend(t.pick(&["./", "/", "././"]).as_bytes());
            }
            if t.pct(3) {
                v.extend(b"../");
                v.extend(&comps[i - 1]);
                v.push(b'/');
            }
        }
        v.extend(c);
    }
    if dir && t.pct(15) {
        v.extend(t.pick(&["/", "/.", "//", "/./"]).as_bytes());
    }
    if comps.is_empty() && v.is_empty() && t.pct(50) {
        v.extend(b".");
    }
    v
}

const DIRS: &[&[u8]] = &[b"i1", b"i2", b"i1/d", b"i1/i2", b"", b"i3", b"i1/i1", b"d", b"i\xff", b"ln", b"i1x", b"none", b"i1/d/e", b"I1", b"I2", b"i", b"i1/D", b"i1 ", b"...", b"i1.", b"\xc3\xa9", b"i1/i"];
const NAMES: &[&str] = &["x.proto", "y.proto", "d/x.proto", "i1/x.proto", "d/y.proto", "i2/x.proto", "x", "d/e/x.proto", "i1/d/x.proto", "\u{e9}.proto", "a b.proto", "google/protobuf/any.proto", "..x.proto", "d/..x", "X.proto", "i1/i1/x.proto"];

/// the first entries are more likely
fn some<'x, T>(t: &mut Tape, v: &'x [T]) -> &'x T {
    let n = t.range(1, v.len());
    let n = if t.pct(60) { n.min(4) } else { n };
    &v[t.below(n)]
}

fn c18(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let w: B = s.fresh().into_bytes();
    let root: B = s.root.as_os_str().as_bytes().to_vec();
    let at = |rel: &[u8]| -> B { join(&w, "").iter().chain(rel).copied().collect() };
    let mut imports: BTreeMap<B, Vec<String>> = BTreeMap::new();
    let mut text: BTreeMap<B, String> = BTreeMap::new();
    let mut log = vec![];
    // the tree
    let nfiles = c.t.range(1, 8);
    let mut all: Vec<B> = vec![];
    for i in 0..nfiles {
        let d = *some(c.t, DIRS);
        if d == b"none" || d == b"ln" {
            continue;
        }
        let name = *some(c.t, NAMES);
        let rel = join(d, name);
        let full = at(&rel);
        if std::fs::metadata(os(&full)).is_ok() || std::fs::create_dir_all(os(&full).parent().unwrap()).is_err() {
            continue;
        }
        let mut im = vec![];
        if c.t.pct(30) {
            for _ in 0..c.t.range(1, 2) {
                let n = some(c.t, NAMES).to_string();
                // an import cycle is another property's business
                if !im.contains(&n) && all.iter().any(|a| a.ends_with(n.as_bytes())) && !all.iter().any(|a| imports.get(a).is_some_and(|v| !v.is_empty())) {
                    im.push(n);
                }
            }
        }
        let mut src = String::from("syntax = \"proto3\";");
        for n in &im {
            src.push_str(&format!("import \"{n}\";"));
        }
        src.push_str(&format!("option java_package = \"F{i}_\";"));
        std::fs::write(os(&full), &src).unwrap();
        let canon = std::fs::canonicalize(os(&full)).unwrap().into_os_string();
        log.push(format!("{}: {src}", show(&full)));
        text.insert(canon.as_bytes().to_vec(), src);
        imports.insert(canon.as_bytes().to_vec(), im);
        all.push(full);
    }
    if c.t.pct(20) {
        let target = *c.t.pick(&["i1", "i2", "i1/d", "i3"]);
        let _ = std::os::unix::fs::symlink(target, os(&at(b"ln")));
        log.push(format!("{} -> {target}", show(&at(b"ln"))));
    }
    if c.t.pct(6) {
        // a directory where a file is expected
        let d = at(&join(*some(c.t, DIRS), *some(c.t, NAMES)));
        let _ = std::fs::create_dir_all(os(&d));
        log.push(format!("directory {}", show(&d)));
    }
    // a file that imports itself through an include is not interesting here
    let nin = if c.t.pct(6) { 0 } else { c.t.count(1, 5) };
    let mut includes: Vec<B> = vec![];
    for _ in 0..nin {
        let d = if c.t.pct(8) {
            b"".to_vec()
        } else if c.t.pct(4) && !all.is_empty() {
            c.t.pick(&all).clone()
        } else {
            at(*some(c.t, DIRS))
        };
        let sp = spell(c.t, &d, &root, true);
        includes.push(sp);
    }
    log.push(format!("includes {:?}", includes.iter().map(|i| show(i)).collect::<Vec<_>>()));
    let mut comp = match Compiler::new(includes.iter().map(|i| os(i))) {
        Ok(c) => c,
        Err(e) => return fail("new fails", format!("Compiler::new fails: {e:?}")),
    };
    comp.include_imports(true);
    let mut opened: BTreeMap<String, bool> = BTreeMap::new();
    let mut ok_paths: Vec<PathBuf> = vec![];
    let nops = c.t.range(1, 5);
    let mut classes = [0; 5];
    for _ in 0..nops {
        let path: B = match c.t.weighted(&[45, 25, 20, 4, 4, 2]) {
            0 if !all.is_empty() => {
                let f = c.t.pick(&all).clone();
                spell(c.t, &f, &root, false)
            }
            1 => some(c.t, NAMES).as_bytes().to_vec(),
            2 if !includes.is_empty() => {
                // an include directory as written, and a name
                let i = c.t.pick(&includes).clone();
                join(&i, *some(c.t, NAMES))
            }
            3 => {
                let mut v = b"./".to_vec();
                v.extend(some(c.t, NAMES).as_bytes());
                v
            }
            4 if !includes.is_empty() => {
                let i = c.t.pick(&includes).clone();
                let tail: &[u8] = *c.t.pick(&[&b"d/../x.proto"[..], b"\xffx.proto", b"d/\xff/x.proto", b"../x.proto", b"./x.proto", b"d//x.proto", b"", b".", b"..", b"d/./x.proto", b"x.proto/", b"x.proto/."]);
                let mut v = join(&i, "");
                v.extend(tail);
                v
            }
            _ => c.t.pick(&[&b""[..], b".", b"/", b"..", b"../x.proto", b"\xff.proto", b"/x.proto", b"d/../x.proto", b"nowhere.proto", b"x.proto/y.proto"]).to_vec(),
        };
        log.push(format!("open {:?}", show(&path)));
        let art = |r: Result<(), Fail>| r.with("history", log.join("\n"));
        // the resolver of each include on its own
        for i in &includes {
            let r = IncludeFileResolver::new(os(i).to_owned());
            let got = subject("resolve_path", || r.resolve_path(os(&path)))?;
            let want = under(i, &path);
            if got != want {
                return art(fail("resolve_path", format!("resolve_path({:?}) under {:?} is {got:?}, expected {want:?}", show(&path), show(i))));
            }
        }
        let want = expect(&includes, &path, &imports);
        let got = subject("open_file", || comp.open_file(os(&path)).map(|_| ()));
        let got = match got {
            Ok(g) => g,
            Err(f) => return art(Err(f)),
        };
        let bad = |e: &dyn std::fmt::Debug| art(fail("wrong outcome", format!("opening {:?}: {e:?}\nexpected {want:?}", show(&path))));
        match (&want, &got) {
            (Want::Ok(name, found), Ok(())) => {
                classes[0] += 1;
                ok_paths.push(os(&path).to_owned());
                mark(&includes, name, &imports, &mut opened, true);
                let Some(f) = comp.files().find(|f| f.name() == name) else {
                    return art(fail("name", format!("{:?} is not in the set under {name:?}: {:?}", show(&path), comp.files().map(|f| f.name().to_string()).collect::<Vec<_>>())));
                };
                if f.is_import() {
                    return art(fail("is_import", format!("{name} was opened but counts as import")));
                }
                let _ = found;
            }
            (Want::NotIncluded, Err(e)) => {
                classes[1] += 1;
                if !e.is_file_not_found() || e.is_io() || e.is_parse() || !format!("{e}").ends_with("is not in any include path") {
                    return bad(e);
                }
            }
            (Want::Shadowed(name, at), Err(e)) => {
                classes[2] += 1;
                if e.is_file_not_found() || e.is_io() || e.is_parse() || e.file() != Some(name) || !format!("{e}").contains("is shadowed by") {
                    return bad(e);
                }
                let text = format!("{e}");
                let by = text.split("is shadowed by '").nth(1).and_then(|s| s.strip_suffix("' in the include paths"));
                let same = by.map(|b| b == show(at) || std::fs::canonicalize(b).ok() == std::fs::canonicalize(os(at)).ok());
                if same != Some(true) {
                    return bad(e);
                }
            }
            (Want::Io(name), Err(e)) => {
                classes[3] += 1;
                if !e.is_io() || e.is_file_not_found() || e.is_parse() || e.file() != Some(name) {
                    return bad(e);
                }
            }
            (Want::ImportMissing(name), Err(e)) => {
                classes[4] += 1;
                if !e.is_file_not_found() || e.is_io() || e.is_parse() || e.file() != Some(name) {
                    return bad(e);
                }
            }
            (Want::Cycle, Err(e)) => {
                if e.is_file_not_found() || e.is_io() || e.is_parse() || !format!("{e}").starts_with("import cycle detected") {
                    return bad(e);
                }
            }
            (_, Ok(())) => return bad(&"succeeded"),
            (_, Err(e)) => return bad(e),
        }
        // every file of the set is the one its name resolves to
        for f in comp.files() {
            let found = lookup(&includes, f.name());
            match (&found, f.path()) {
                (Found::Bundled, None) => {}
                (Found::At(at), Some(p)) => {
                    let canon = std::fs::canonicalize(os(at)).unwrap();
                    if std::fs::canonicalize(p).ok().as_ref() != Some(&canon) {
                        return art(fail("path", format!("{} is reported at {p:?}, expected {}", f.name(), show(at))));
                    }
                    let key = canon.into_os_string();
                    let src = &text[key.as_bytes()];
                    let d = comp.descriptor_pool().get_file_by_name(f.name()).unwrap();
                    let m = d.file_descriptor_proto().options.as_ref().map(|o| o.java_package().to_string()).unwrap_or_default();
                    if !src.contains(&format!("\"{m}\"")) {
                        return art(fail("content", format!("{} is the file marked {m}, the file at {} is {src}", f.name(), show(at))));
                    }
                }
                (x, p) => return art(fail("path", format!("{} is reported at {p:?}, expected {x:?}", f.name()))),
            }
            if (opened.get(f.name()) == Some(&true)) == f.is_import() {
                return art(fail("is_import", format!("{}: was opened: {:?}, is_import() {}", f.name(), opened.get(f.name()), f.is_import())));
            }
        }
    }
    // the convenience function does the same as a compiler
    let once = subject("compile", || protox::compile(&ok_paths, includes.iter().map(|i| os(i))))?;
    let mut fresh = Compiler::new(includes.iter().map(|i| os(i))).unwrap();
    fresh.include_imports(true).include_source_info(true);
    let r = fresh.open_files(&ok_paths).map(|_| ());
    match (once, r) {
        (Ok(a), Ok(())) if a == fresh.file_descriptor_set() => {}
        (a, b) => {
            let a = a.map(|s| s.file.len());
            return fail("compile()", format!("compile() gives {a:?}, a compiler {b:?} ({} files)", fresh.files().len())).with("history", log.join("\n"));
        }
    }
    for (n, l) in classes.iter().zip(["opened", "not included", "shadowed", "i/o error", "import missing"]) {
        c.label_if(*n > 0, l);
    }
    c.label_if(includes.len() > 1, "several includes");
    c.nontrivial = !includes.is_empty() && classes[0] + classes[2] > 0;
    let l = log.join("\n").replace(&show(&root), "<scratch>").replace(&show(&w), "w");
    c.key = hash_of(&l);
    c.sample = Some(l);
    Ok(())
}

fn mark(includes: &[B], name: &str, imports: &BTreeMap<B, Vec<String>>, opened: &mut BTreeMap<String, bool>, explicit: bool) {
    let e = opened.entry(name.to_string()).or_insert(false);
    *e |= explicit;
    if let Found::At(at) = lookup(includes, name) {
        let key = std::fs::canonicalize(os(&at)).unwrap();
        for i in imports.get(key.as_os_str().as_bytes()).into_iter().flatten() {
            if !opened.contains_key(i) {
                mark(includes, i, imports, opened, false);
            }
        }
    }
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C18");
    let spec = Spec {
        prop: "C18",
        rule: "a case is one directory tree in a scratch directory, one list of include directories and a few opens by path; non-trivial: there is an include directory and an open that finds a file",
        cases: ctx.scale(400_000, 8_000_000),
        assumptions: vec!["the files do not change during a case", "unix path rules"],
        f: &|c| c18(&s, c),
        threads: THREADS,
        shrink_budget: 4000,
    };
    go(ctx, spec, replay)
}
