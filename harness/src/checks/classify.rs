//! C22: failures are classified by cause and name the file at fault; accessors of files.
use super::*;
use crate::scratch::Scratch;
use prost::Message;
use prost_types::FileDescriptorProto;
use protox::file::{File, FileResolver, IncludeFileResolver};
use protox::Compiler;
use std::path::{Path, PathBuf};

const STATES: &[&str] = &[
    "valid", "absent", "absent directory", "below a file", "directory", "dangling link", "link loop", "link to file", "link to directory", "name too long",
    "invalid utf-8", "cut utf-8", "syntax error", "rule error", "unresolved", "socket", "empty", "unreadable", "unsearchable",
];

extern "C" {
    fn setfsuid(uid: u32) -> i32;
}
/// Runs with the file permissions of another user (of this thread only).
fn as_other<T>(yes: bool, f: impl FnOnce() -> T) -> T {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            unsafe { setfsuid(self.0) };
        }
    }
    if !yes {
        return f();
    }
    let _back = Back(unsafe { setfsuid(65534) } as u32);
    f()
}
/// Whether another user's permissions can be taken, and are then refused and granted as they should.
fn others_work(root: &Path) -> bool {
    use std::os::unix::fs::PermissionsExt;
    let (no, yes) = (root.join("no"), root.join("yes"));
    std::fs::write(&no, "").unwrap();
    std::fs::write(&yes, "").unwrap();
    std::fs::set_permissions(&no, std::fs::Permissions::from_mode(0)).unwrap();
    let r = as_other(true, || std::fs::read(&no).is_err() && std::fs::read(&yes).is_ok());
    r && std::fs::read(&no).is_ok()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Fine,
    NotFound,
    Io,
    Parse,
    Neither,
}

struct Placed {
    class: Class,
    name: String,
    text: Option<String>,
    /// what the operating system or the parser says about it
    cause: Option<String>,
}

/// puts a file in the given state at include/name
fn place(c: &mut Case, inc: &str, state: &str, name: &str) -> Placed {
    let mut name = name.to_string();
    let mut p = PathBuf::from(inc).join(&name);
    let mkdir = |p: &Path| std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if state != "absent directory" {
        mkdir(&p);
    }
    let valid = |c: &mut Case| -> String {
        let u = c.t.below(1000);
        format!("syntax = \"proto3\";\n/* \u{e9} {u} */ message {}_{u} {{ int32 x = 1; // \u{4e2d}\n}}\n", if c.t.pct(50) { "A" } else { "Bb" })
    };
    let mut text = None;
    let mut class = Class::Fine;
    match state {
        "valid" => text = Some(valid(c)),
        "empty" => text = Some(c.t.pick(&["", "\n", "// nothing", " ", ";"]).to_string()),
        "absent" | "absent directory" => class = Class::NotFound,
        "below a file" => {
            std::fs::write(&p, "").unwrap();
            name = format!("{name}/{}", c.t.pick(&["x.proto", "d/x.proto"]));
            class = Class::NotFound;
        }
        "directory" => {
            std::fs::create_dir_all(&p).unwrap();
            class = Class::Io;
        }
        "dangling link" => {
            std::os::unix::fs::symlink(*c.t.pick(&["nothing", "/nonexistent/x.proto", "no/such"]), &p).unwrap();
            class = Class::NotFound;
        }
        "link loop" => {
            std::os::unix::fs::symlink(p.file_name().unwrap(), &p).unwrap();
            class = Class::Io;
        }
        "link to file" => {
            let t = valid(c);
            std::fs::write(p.with_extension("target"), &t).unwrap();
            std::os::unix::fs::symlink(p.with_extension("target").file_name().unwrap(), &p).unwrap();
            text = Some(t);
        }
        "link to directory" => {
            std::os::unix::fs::symlink(".", &p).unwrap();
            class = Class::Io;
        }
        "name too long" => {
            name = format!("{}.proto", "n".repeat(c.t.range(250, 400)));
            class = Class::Io;
        }
        "invalid utf-8" | "cut utf-8" => {
            let t = valid(c).into_bytes();
            let bad: &[u8] = *c.t.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xf5\x80\x80\x80", b"\xe4\xb8", b"\xf0\x9f\x98"]);
            let mut v = t.clone();
            if state == "cut utf-8" {
                v.extend(*c.t.pick(&[&b"// \xe4\xb8"[..], b"// \xc3", b"/* \xf0\x9f\x98", b"\xf0"]));
            } else {
                let at = c.t.below(t.len() + 1);
                v.splice(at..at, bad.iter().copied());
                if std::str::from_utf8(&v).is_ok() {
                    v.push(0xff);
                }
            }
            std::fs::write(&p, v).unwrap();
            class = Class::Parse;
        }
        "syntax error" => {
            let t = valid(c);
            let toks = ["}", "message", "\"", "/*", "@", "message {", "enum E {", "\\", "\u{e9}", "import", "syntax = 'proto3';", "0"];
            text = Some(format!("{t}{}", c.t.pick(&toks)));
            class = Class::Parse;
        }
        "rule error" => {
            let t = valid(c);
            let m = ["message R { int32 x = 0; }", "message R { required int32 x = 1; }", "message R { oneof o {} }", "package a; package b;", "message R { map<float, int32> m = 1; }"];
            text = Some(format!("{t}{}", c.t.pick(&m)));
            class = Class::Parse;
        }
        "unresolved" => {
            let t = valid(c);
            let m = ["message R { Missing x = 1; }", "message R { .a.b.C x = 1; }", "extend Missing { int32 x = 1; }", "message R { int32 x = 1; int32 x = 2; }", "message R { int32 x = 1; int32 y = 1; }", "message R {} message R {}"];
            text = Some(format!("{t}{}", c.t.pick(&m)));
            class = Class::Neither;
        }
        "unreadable" | "unsearchable" => {
            use std::os::unix::fs::PermissionsExt;
            let bar = |p: &Path| std::fs::set_permissions(p, std::fs::Permissions::from_mode(0)).unwrap();
            if state == "unreadable" {
                let t = valid(c);
                std::fs::write(&p, t).unwrap();
                bar(&p);
            } else {
                std::fs::create_dir_all(p.with_file_name("closed/e")).unwrap();
                let at = ["closed/x.proto", "closed/e/x.proto"][c.t.below(2)];
                if c.t.pct(70) {
                    std::fs::write(p.with_file_name(at), "").unwrap();
                }
                bar(&p.with_file_name("closed"));
                name = match name.rfind('/') {
                    Some(i) => format!("{}/{at}", &name[..i]),
                    None => at.to_string(),
                };
            }
            class = Class::Io;
        }
        "socket" => {
            // bind needs a short path
            let _ = std::os::unix::net::UnixListener::bind(&p);
            class = if p.symlink_metadata().is_ok() { Class::Io } else { Class::NotFound };
        }
        "too large" => {
            let f = std::fs::File::create(&p).unwrap();
            f.set_len((1 << 31) + c.t.below(3) as u64 * 1000).unwrap();
            class = Class::Parse;
        }
        _ => unreachable!(),
    }
    if let Some(t) = &text {
        std::fs::write(&p, t).unwrap();
    }
    p = PathBuf::from(inc).join(&name);
    let cause = match class {
        Class::Io => as_other(state.starts_with("un"), || std::fs::read(&p)).err().map(|e| e.to_string()),
        Class::Parse => text.as_ref().and_then(|t| protox_parse::parse(&name, t).err()).map(|e| format!("{e:?}")),
        _ => None,
    };
    Placed { class, name, text, cause }
}

fn classes(e: &protox::Error) -> (bool, bool, bool) {
    (e.is_file_not_found(), e.is_parse(), e.is_io())
}
fn flags(k: Class) -> (bool, bool, bool) {
    (k == Class::NotFound, k == Class::Parse, k == Class::Io)
}

fn accessors(f: &File, name: &str, path: Option<&Path>, text: &str) -> Result<(), Fail> {
    let want = match protox_parse::parse(name, text) {
        Ok(w) => w,
        Err(e) => return fail("accepted by one only", format!("the parser rejects it: {e:?}")),
    };
    if f.name() != name || f.path() != path || f.source() != Some(text) || *f.file_descriptor_proto() != want {
        return fail(
            "accessors",
            format!("name {:?} path {:?} source {:?}\nexpected {name:?} {path:?} {text:?}; descriptor as parsed: {}", f.name(), f.path(), f.source(), *f.file_descriptor_proto() == want),
        );
    }
    let back = FileDescriptorProto::from(f.clone());
    if back != want {
        return fail("conversion", "converting the file to a descriptor changes it");
    }
    // built from the descriptor, or its encoding
    let g = File::from_file_descriptor_proto(want.clone());
    let h = match File::decode_file_descriptor_proto(&*want.encode_to_vec()) {
        Ok(h) => h,
        Err(e) => return fail("conversion", format!("{e}")),
    };
    for x in [&g, &h, &File::from(want.clone())] {
        if x.name() != name || x.path().is_some() || x.source().is_some() || *x.file_descriptor_proto() != want {
            return fail("conversion", "a file made from a descriptor differs from it");
        }
    }
    Ok(())
}

struct Memory {
    files: Vec<(String, String)>,
    broken: String,
    make: Box<dyn Fn(&str) -> protox::Error + Send + Sync>,
}
impl FileResolver for Memory {
    fn open_file(&self, name: &str) -> Result<File, protox::Error> {
        if name == self.broken {
            return Err((self.make)(name));
        }
        match self.files.iter().find(|f| f.0 == name) {
            Some(f) => File::from_source(name, &f.1),
            None => Err(protox::Error::file_not_found(name)),
        }
    }
}

#[derive(Debug)]
struct Odd(String);
impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "odd {}", self.0)
    }
}
impl std::error::Error for Odd {}

/// errors that do not come from the state of one file
fn special(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let kind = *c.t.pick(&["shadowed", "not included", "cycle", "duplicate", "custom i/o", "custom", "custom not found"]);
    c.label(kind);
    c.nontrivial = true;
    let names = ["a.proto", "d/b.proto", "\u{e9}.proto", "c/d/e.proto", "x y.proto"];
    let k = c.t.below(names.len());
    let name = |i: usize| names[(k + i) % names.len()].to_string();
    let depth = c.t.below(3);
    let u = c.t.below(1_000_000);
    // a chain of imports from the opened file name(0) to the file name(depth), which is at fault
    let mut files: Vec<(String, String)> = (0..depth).map(|i| (name(i), format!("syntax = 'proto3'; import \"{}\";", name(i + 1)))).collect();
    let at = name(depth);
    let cause = format!("cause {u}");
    let mut make: Box<dyn Fn(&str) -> protox::Error + Send + Sync> = Box::new(protox::Error::file_not_found);
    let mut broken = String::new();
    let class;
    let mut says: Vec<String> = vec![];
    let mut at_fault: Vec<Option<String>> = vec![Some(at.clone())];
    let r = match kind {
        "shadowed" | "not included" => {
            let w = s.fresh();
            let base = if c.t.pct(50) { w.clone() } else { format!("{}/{w}", s.root.display()) };
            for d in ["one", "two", "three"] {
                let p = format!("{base}/{d}/{at}");
                std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
                if d != "three" || c.t.pct(50) {
                    std::fs::write(&p, format!("message M{u} {{}}")).unwrap();
                }
            }
            let mut comp = Compiler::new([format!("{base}/one"), format!("{base}/two")]).unwrap();
            let which = if kind == "shadowed" { "two" } else { "three" };
            let path = format!("{base}/{which}/{at}");
            if c.t.pct(30) && kind == "shadowed" {
                // the file that takes precedence is loaded already
                comp.open_file(&at).unwrap();
            }
            says.push(path.clone());
            if kind == "shadowed" {
                class = Class::Neither;
                says.push(format!("{base}/one/{at}"));
            } else {
                class = Class::NotFound;
                at_fault = vec![None, Some(at.clone()), Some(path.clone())];
            }
            subject("open_file", || comp.open_file(&path).map(|_| ()))?
        }
        _ => {
            match kind {
                "cycle" => {
                    let n = c.t.range(1, 3);
                    for i in 0..n {
                        let next = if i + 1 == n { at.clone() } else { format!("{i}.proto") };
                        let own = if i == 0 { at.clone() } else { format!("{}.proto", i - 1) };
                        files.push((own.clone(), format!("import \"{next}\";")));
                        says.push(own.clone());
                        at_fault.push(Some(own));
                    }
                    class = Class::Neither;
                }
                "duplicate" => {
                    files.push((at.clone(), "import \"ok.proto\"; import \"o2.proto\"; import public 'ok.proto';".into()));
                    files.push(("ok.proto".into(), String::new()));
                    files.push(("o2.proto".into(), String::new()));
                    says.push("ok.proto".into());
                    class = Class::Neither;
                }
                _ => {
                    broken = at.clone();
                    let text = cause.clone();
                    at_fault = vec![None, Some(at.clone())];
                    match kind {
                        "custom i/o" => {
                            let k = *c.t.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::NotFound, std::io::ErrorKind::InvalidData]);
                            let from = c.t.pct(50);
                            make = Box::new(move |_| {
                                let e = std::io::Error::new(k, text.clone());
                                if from { protox::Error::from(e) } else { protox::Error::new(e) }
                            });
                            says.push(cause.clone());
                            class = Class::Io;
                        }
                        "custom" => {
                            let odd = c.t.pct(50);
                            make = Box::new(move |_| if odd { protox::Error::new(Odd(text.clone())) } else { protox::Error::new(text.clone()) });
                            says.push(cause.clone());
                            class = Class::Neither;
                        }
                        _ => {
                            if depth > 0 {
                                at_fault = vec![Some(name(depth - 1))];
                            }
                            says.push(at.clone());
                            class = Class::NotFound;
                        }
                    }
                }
            }
            let mut comp = Compiler::with_file_resolver(Memory { files: files.clone(), broken: broken.clone(), make });
            subject("open_file", || comp.open_file(name(0)).map(|_| ()))?
        }
    };
    c.key = hash_of(&(kind, k, depth, u));
    c.sample = Some(format!("{kind}: {files:?} broken {broken:?}"));
    let e = match r {
        Ok(()) => return fail("opened", format!("{kind}: {files:?} broken {broken:?}: succeeds")),
        Err(e) => e,
    };
    let (debug, shown) = (format!("{e:?}"), e.to_string());
    if classes(&e) != flags(class) || !at_fault.iter().any(|f| f.as_deref() == e.file()) || says.iter().any(|x| !debug.contains(x.as_str())) || shown.is_empty() {
        return fail(
            format!("{kind} misreported"),
            format!("{files:?} broken {broken:?}\nerror: {debug} / {shown}\nfile() {:?}, expected {at_fault:?}; (not found, parse, io) = {:?}, expected {class:?}; expected to mention {says:?}", e.file(), classes(&e)),
        );
    }
    Ok(())
}

fn c22(s: &Scratch, others: bool, c: &mut Case) -> Result<(), Fail> {
    if c.t.pct(12) {
        return special(s, c);
    }
    let w = s.fresh();
    let inc = if c.t.pct(70) { format!("{w}/inc") } else { format!("{}/{w}/inc", s.root.display()) };
    std::fs::create_dir_all(&inc).unwrap();
    let state = if c.t.pct(1) && c.t.below(20) == 1 { "too large" } else { *c.t.pick(STATES) };
    let other_user = matches!(state, "unreadable" | "unsearchable");
    if other_user && !others {
        c.label("not allowed to change the user");
        return Ok(());
    }
    // a thread's own setting, so other cases do not notice
    macro_rules! code { ($what:expr, $f:expr) => { as_other(other_user, || subject($what, $f))? } }
    let base = *c.t.pick(&["f.proto", "d/f.proto", "\u{e9}/\u{4e2d}.proto", "d/e/f", "a b.proto"]);
    let f = place(c, &inc, state, base);
    let path = PathBuf::from(&inc).join(&f.name);
    c.label(state);
    let ctx = format!("{state}: {} ({:?})", f.name, f.class);
    let text = f.text.clone().unwrap_or_default();
    let wrong = |sig: &str, what: &str, e: &protox::Error| {
        fail(sig, format!("{ctx}\n{what}: {e:?} / {e}\nfile() {:?}, (not found, parse, io) = {:?}", e.file(), classes(e))).with("source.proto", &text)
    };
    // File::open and the include resolver
    let opened = [("File::open", code!("File::open", || File::open(&f.name, &path))), ("resolver", code!("open_file", || IncludeFileResolver::new(PathBuf::from(&inc)).open_file(&f.name)))];
    for (what, r) in opened {
        match (r, f.class) {
            (Ok(file), Class::Fine | Class::Neither) => accessors(&file, &f.name, Some(&path), &text).with("source.proto", &text)?,
            (Ok(_), _) => return fail("opened", format!("{ctx}: {what} succeeds")).with("source.proto", &text),
            (Err(e), k) => {
                if flags(k) != classes(&e) || matches!(k, Class::Fine | Class::Neither) {
                    return wrong("wrong class", what, &e);
                }
                if e.file() != Some(&f.name) {
                    return wrong("wrong file", what, &e);
                }
                let d = format!("{e:?}");
                if (f.text.is_none() && !d.contains(&f.name)) || f.cause.as_ref().is_some_and(|x| !d.contains(x.as_str())) {
                    return wrong("cause", &format!("{what} (cause {:?})", f.cause), &e);
                }
            }
        }
    }
    if f.text.is_some() {
        match (subject("from_source", || File::from_source(&f.name, &text))?, f.class) {
            (Ok(file), Class::Fine | Class::Neither) => accessors(&file, &f.name, None, &text).with("source.proto", &text)?,
            (Err(e), Class::Parse) if classes(&e) == flags(Class::Parse) && e.file() == Some(&f.name) && Some(format!("{e:?}")) == f.cause => {}
            (r, _) => return fail("from_source", format!("{ctx}: {:?}", r.map(|f| f.name().to_string()))).with("source.proto", &text),
        }
    }
    // through the compiler, at the end of a chain of imports
    let depth = c.t.count(0, 4);
    let mut target = f.name.clone();
    let mut importer = None;
    for k in 0..depth {
        let n = format!("chain{k}.proto");
        let kind = *c.t.pick(&["", "public ", "weak "]);
        let extra = if c.t.pct(20) { "import \"google/protobuf/empty.proto\";" } else { "" };
        let (x, y) = if c.t.pct(50) { (extra, "") } else { ("", extra) };
        std::fs::write(format!("{inc}/{n}"), format!("syntax = \"proto3\"; {x} import {kind}\"{target}\"; {y} message Chain{k} {{}}")).unwrap();
        importer = importer.or(Some(n.clone()));
        target = n;
    }
    let by_path = c.t.pct(50);
    // a second include directory that has the file too: only absence moves on to it
    let other = c.t.pct(30);
    let second = format!("{w}/second");
    let mut includes = vec![inc.clone()];
    if other {
        let p = PathBuf::from(&second).join(&f.name);
        if std::fs::create_dir_all(p.parent().unwrap()).is_ok() && std::fs::write(&p, "syntax = \"proto3\"; message Second {}").is_ok() {
            includes.push(second.clone());
        }
    }
    let fallback = includes.len() == 2 && f.class == Class::NotFound;
    let mut comp = Compiler::new(&includes).map_err(|e| Fail { sig: "new".into(), msg: format!("{e:?}"), artefacts: vec![] })?;
    comp.include_imports(true);
    let arg = if by_path { PathBuf::from(&inc).join(&target) } else { PathBuf::from(&target) };
    let r = code!("open_file", || comp.open_file(&arg).map(|_| ()));
    let ctx2 = format!("compiler, depth {depth}, includes {includes:?}, opening {arg:?}");
    match r {
        Ok(()) => {
            if f.class != Class::Fine && !fallback {
                return fail("compiled", format!("{ctx}\n{ctx2}: succeeds")).with("source.proto", &text);
            }
            if by_path && depth == 0 && fallback {
                return fail("shadow", format!("{ctx}\n{ctx2}: succeeds with a file of another path"));
            }
            let want = if fallback { PathBuf::from(&second).join(&f.name) } else { path.clone() };
            let m = comp.files().find(|x| x.name() == f.name);
            if m.map(|m| m.path().map(Path::to_path_buf)) != Some(Some(want.clone())) {
                return fail("path", format!("{ctx}\n{ctx2}: reported at {:?}, expected {want:?}", m.map(|m| m.path())));
            }
        }
        Err(e) => {
            if by_path && depth == 0 && fallback {
                // the path names a file that does not exist, its name another one
                if e.is_io() || e.is_parse() {
                    return wrong("wrong class", &ctx2, &e);
                }
                c.label("shadowed by the only file");
            } else {
                if f.class == Class::Fine || fallback || flags(f.class) != classes(&e) {
                    return wrong("wrong class", &ctx2, &e);
                }
                let d = format!("{e:?}");
                if f.cause.as_ref().is_some_and(|x| !d.contains(x.as_str())) {
                    return wrong("cause", &format!("{ctx2} (cause {:?})", f.cause), &e);
                }
                let file_ok = match (f.class, &importer) {
                    (Class::NotFound, None) => e.file().is_none_or(|n| n == f.name) && d.contains(&*arg.to_string_lossy()),
                    (Class::NotFound, Some(i)) => e.file() == Some(i) && d.starts_with(&format!("{i}:1:")) && d.contains(&format!("'{}'", f.name)),
                    _ => e.file() == Some(&f.name) && (f.class == Class::Parse && f.text.is_some() || d.contains(&f.name)),
                };
                if !file_ok {
                    return wrong("wrong file", &ctx2, &e);
                }
            }
            if comp.files().any(|x| x.name() == f.name || x.name().starts_with("chain")) {
                return fail("failed file kept", format!("{ctx}\n{ctx2}: {:?}", comp.files().map(|f| f.name().to_string()).collect::<Vec<_>>()));
            }
        }
    }
    c.label_if(depth > 0, "as an import");
    c.label_if(includes.len() == 2, "second include directory");
    c.nontrivial = f.class != Class::Fine || depth > 0;
    c.key = hash_of(&(state, &f.name, &text, depth, by_path, other));
    c.sample = Some(format!("{ctx}\n{ctx2}\n{text}"));
    Ok(())
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C22");
    let others = others_work(&s.root);
    let spec = Spec {
        prop: "C22",
        rule: "a case puts one file in a drawn state into a scratch directory and opens it directly, from source, and through a compiler at the end of up to four imports; non-trivial: the state is faulty or the file an import",
        cases: ctx.scale(600_000, 12_000_000),
        assumptions: vec!["permission failures are met by opening files with the file permissions of user 65534 (setfsuid on the thread)"],
        f: &|c| c22(&s, others, c),
        threads: THREADS,
        shrink_budget: 4000,
    };
    go(ctx, spec, replay)
}
