//! C16 and C17: histories of opens against a model of import graphs.
use super::*;
use crate::scratch::Scratch;
use crate::world::*;
use miette::Diagnostic;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, GoogleFileResolver};
use protox::Compiler;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

/// the bundled files' imports, read off a parse of each
fn bundled() -> &'static HashMap<String, FileDescriptorProto> {
    static B: OnceLock<HashMap<String, FileDescriptorProto>> = OnceLock::new();
    B.get_or_init(|| {
        let mut c = Compiler::with_file_resolver(GoogleFileResolver::new());
        for g in GOOGLE {
            c.open_file(g.0).unwrap();
        }
        c.include_imports(true).include_source_info(true);
        c.file_descriptor_set().file.into_iter().map(|f| (f.name().to_string(), f)).collect()
    })
}

pub struct Model {
    /// name -> was opened explicitly
    pub loaded: BTreeMap<String, bool>,
    /// where the files are
    pub dir: Option<String>,
    pub imports: bool,
    pub info: bool,
}

/// Everything observable about the compiler agrees with the model.
pub fn observe(w: &World, m: &Model, c: &Compiler) -> Result<(), Fail> {
    let files: Vec<_> = c.files().collect();
    let names: Vec<String> = files.iter().map(|f| f.name().to_string()).collect();
    let got: BTreeMap<String, bool> = files.iter().map(|f| (f.name().to_string(), !f.is_import())).collect();
    if names.len() != got.len() {
        return fail("file listed twice", format!("files(): {names:?}"));
    }
    if got != m.loaded {
        return fail("wrong set of files", format!("files() (name -> explicit): {got:?}\nexpected: {:?}", m.loaded));
    }
    if c.files().len() != names.len() {
        return fail("length of files()", "files() reports another length");
    }
    for f in &files {
        let at = m.dir.as_ref().filter(|_| w.by_name.contains_key(f.name())).map(|d| std::path::Path::new(d).join(f.name()));
        if f.path() != at.as_deref() {
            return fail("path of a file", format!("{} is reported at {:?}, it was read from {at:?}", f.name(), f.path()));
        }
    }
    let mut before = BTreeSet::new();
    for n in &names {
        for i in w.imports_of(n) {
            if !before.contains(&i) {
                return fail("order", format!("{n} is listed before its import {i}: {names:?}"));
            }
        }
        before.insert(n.clone());
    }
    let pool: Vec<String> = c.descriptor_pool().files().map(|f| f.name().to_string()).collect();
    if pool != names {
        return fail("pool", format!("descriptor_pool() has {pool:?}, files() {names:?}"));
    }
    let expect: Vec<&String> = names.iter().filter(|n| m.imports || m.loaded[*n]).collect();
    let set = c.file_descriptor_set();
    let enc = FileDescriptorSet::decode(&*c.encode_file_descriptor_set());
    let enc = match enc {
        Ok(e) => e,
        Err(e) => return fail("encoding", format!("the encoded set does not decode: {e}")),
    };
    for (what, s) in [("file_descriptor_set", &set), ("encode_file_descriptor_set", &enc)] {
        let have: Vec<&str> = s.file.iter().map(|f| f.name()).collect();
        if have != expect {
            return fail(
                format!("{what}: files"),
                format!("{what} with include_imports={}: {have:?}, expected {expect:?} (explicit: {:?})", m.imports, m.loaded),
            );
        }
        for f in &s.file {
            if f.source_code_info.is_some() != m.info {
                return fail(format!("{what}: source info"), format!("{}: source info present: {}, requested: {}", f.name(), !m.info, m.info));
            }
        }
    }
    if set != enc {
        return fail("encoded set differs", "the encoded set decodes to something else than file_descriptor_set()");
    }
    for f in &set.file {
        check_descriptor(w, f, m.info)?;
    }
    Ok(())
}

fn check_descriptor(w: &World, f: &FileDescriptorProto, info: bool) -> Result<(), Fail> {
    let Some(i) = w.by_name.get(f.name()) else {
        let mut b = bundled()[f.name()].clone();
        if !info {
            b.source_code_info = None;
        }
        if *f != b {
            return fail("bundled file differs", format!("{} differs from compiling it alone", f.name()));
        }
        return Ok(());
    };
    let n = &w.nodes[*i];
    let deps: Vec<&str> = n.imports.iter().map(|m| m.name.as_str()).collect();
    let index = |k: u8| -> Vec<i32> { n.imports.iter().enumerate().filter(|(_, m)| m.kind == k).map(|(i, _)| i as i32).collect() };
    let msg = match f.message_type.first() {
        Some(m) => m,
        None => return fail("content", format!("{} has no message", f.name())),
    };
    let refs: Vec<String> = msg.field.iter().filter(|f| f.type_name.is_some()).map(|f| f.type_name().to_string()).collect();
    if f.dependency != deps || f.public_dependency != index(1) || f.weak_dependency != index(2) {
        return fail("imports differ", format!("{}: {:?} {:?} {:?}, declared {:?}", f.name(), f.dependency, f.public_dependency, f.weak_dependency, n.imports));
    }
    if f.package() != n.package || f.message_type.len() != 1 || refs != n.refs || msg.field.iter().any(|f| f.type_name.is_some() && f.r#type != Some(11)) {
        return fail("content", format!("{}: {f:?}\nexpected references {:?}", f.name(), n.refs));
    }
    if info {
        let mut own = match protox_parse::parse(f.name(), &n.src) {
            Ok(o) => o,
            Err(e) => return fail("content", format!("{}: does not parse: {e:?}", f.name())),
        };
        if own.source_code_info.take() != f.source_code_info {
            return fail("source info differs", format!("{}: source info is not the parser's", f.name()));
        }
    }
    Ok(())
}

pub fn resolver(w: &World, c: &mut Case, dir: &Option<String>) -> (Mem, ChainFileResolver, Option<String>) {
    let mut mem = Mem::of(w, dir.clone());
    if dir.is_none() && c.t.pct(40) {
        mem.prefix = Some("root/of tree".to_string());
    }
    let prefix = mem.prefix.clone();
    let mut chain = ChainFileResolver::new();
    chain.add(mem.clone());
    chain.add(GoogleFileResolver::new());
    (mem, chain, prefix)
}

pub fn dump(w: &World) -> String {
    let mut s = String::new();
    for n in &w.nodes {
        s.push_str(&format!("==== {} ({:?})\n{}\n", n.name, n.fault, n.src));
    }
    s
}

fn spelled(t: &mut Tape, name: &str, prefix: &Option<String>) -> String {
    match prefix {
        Some(p) if t.pct(60) => format!("{p}/{name}"),
        _ => name.to_string(),
    }
}

/// Does the error fit one of the expected faults?
pub fn fits(w: &World, e: &protox::Error, exp: &[Expect], path: &str) -> Result<(), String> {
    let file = e.file();
    let dbg = format!("{e:?}");
    let text = format!("{e}");
    let classes = (e.is_file_not_found(), e.is_parse(), e.is_io());
    let labels: Vec<(usize, usize)> = e.labels().map(|l| l.map(|l| (l.offset(), l.offset() + l.len())).collect()).unwrap_or_default();
    let mut why = vec![];
    for x in exp {
        let mut bad = vec![];
        let mut want = |c: bool, what: String| {
            if !c {
                bad.push(what)
            }
        };
        let cls = match x {
            Expect::Shadowed { .. } => (false, false, false),
            Expect::RootMissing | Expect::Missing { .. } => (true, false, false),
            Expect::Parse { .. } => (false, true, false),
            Expect::Io => (false, false, true),
            _ => (false, false, false),
        };
        want(classes == cls, format!("(is_file_not_found, is_parse, is_io) is {classes:?}"));
        match x {
            Expect::Shadowed { name } => {
                want(file == Some(name), format!("file() is {file:?}, not {name:?}"));
                want(text.contains(path), "the path is not named".into());
                want(dbg.contains("shadowed"), "the debug text does not speak of shadowing".into());
            }
            Expect::RootMissing => {
                want(text.contains(path), "the path is not named".into());
                want(dbg.contains(path), "the path is not in the debug text".into());
            }
            Expect::Missing { importer, name, span } | Expect::Dup { importer, name, span } => {
                want(file == Some(importer), format!("file() is {file:?}, not the importer"));
                let msg = if matches!(x, Expect::Missing { .. }) { format!("import '{name}' not found") } else { format!("import '{name}' was listed twice") };
                want(text == msg, format!("the message is not {msg:?}"));
                want(labels == [*span], format!("the label covers {labels:?}, the import statement is at {span:?}"));
                let src = &w.nodes[w.by_name[importer]].src;
                let (l, c) = super::errors::ref_line_col(src.as_bytes(), span.0);
                let head = format!("{importer}:{l}:{c}: {msg}");
                want(dbg == head, format!("the debug text is not {head:?}"));
            }
            Expect::Cycle { members } => {
                want(file.is_some_and(|f| members.iter().any(|m| m == f)), format!("file() is {file:?}, not a file of the cycle {members:?}"));
                match text.strip_prefix("import cycle detected: ") {
                    None => want(false, "the message does not speak of a cycle".into()),
                    Some(c) => {
                        let path: Vec<&str> = c.split(" -> ").collect();
                        let last = path[path.len() - 1];
                        want(path.len() >= 2 && path.windows(2).all(|p| w.imports_of(p[0]).iter().any(|i| i == p[1])), "the reported path does not follow imports".into());
                        want(path[..path.len() - 1].iter().filter(|p| **p == last).count() == 1, "the reported path is not closed".into());
                        want(file == Some(last), "file() is not where the cycle closes".into());
                    }
                }
            }
            Expect::Check { file: f, span } => {
                want(file == Some(f), format!("file() is {file:?}, not {f}"));
                let src = &w.nodes[w.by_name[f]].src;
                // (taken from the source info, where only a line feed ends a line)
                let (l, c) = crate::layout::line_col(src, span.0);
                let (l, c) = (l + 1, c + 1);
                want(dbg.starts_with(&format!("{f}:{l}:{c}: ")), format!("the debug text does not name {f}:{l}:{c}"));
                // (prost-reflect counts columns in characters)
                want(labels == [*span] || !src.is_ascii(), format!("the label covers {labels:?}, the reference is at {span:?}"));
                let whole = e.source_code().and_then(|s| s.read_span(&(0, src.len()).into(), 0, 0).ok().map(|s| s.data() == src.as_bytes()));
                want(whole == Some(true), "the error does not carry the source".into());
            }
            Expect::Parse { file: f } => {
                want(file == Some(f), format!("file() is {file:?}, not {f}"));
                want(dbg.starts_with(&format!("{f}:")), "the debug text does not name the file".into());
            }
            Expect::Io => want(dbg.contains("no permission"), "the cause is not in the debug text".into()),
            Expect::Custom => want(dbg.contains(CUSTOM_TEXT) && text == CUSTOM_TEXT, "the cause is not in the text".into()),
        }
        if bad.is_empty() {
            return Ok(());
        }
        why.push(format!("not {x:?}: {}", bad.join("; ")));
    }
    Err(why.join("\n"))
}

fn history(s: &Scratch, c: &mut Case, faulty: bool) -> Result<(), Fail> {
    let cfg = crate::world::Cfg {
        max_files: if !faulty && c.t.pct(2) { 80 } else if c.t.pct(20) { 10 } else { 6 },
        faults: if faulty { 15 } else { 0 },
        cycles: if faulty { 35 } else { 0 },
        dups: if faulty { 6 } else { 0 },
        google: c.t.pct(if faulty { 8 } else { 12 }),
        style: c.t.pct(50),
        chains: if faulty { 2 } else { 1 },
    };
    let mut w = World::generate(c.t, &cfg);
    let dir = if c.t.pct(15) { Some(format!("{}/inc", s.fresh())) } else { None };
    c.label_if(dir.is_some(), "sources on disk");
    let (mem, chain, prefix) = resolver(&w, c, &dir);
    let mut comp = Compiler::with_file_resolver(chain);
    let mut m = Model { loaded: BTreeMap::new(), dir: dir.clone(), imports: false, info: false };
    let mut log = vec![];
    let ops = c.t.range(1, 8);
    let (mut fails, mut oks, mut reopened, mut after_fail) = (0, 0, 0, 0);
    let step = |w: &World, log: &[String], r: Result<(), Fail>| r.with("history", log.join("\n")).with("files", dump(w));
    for _ in 0..ops {
        match c.t.weighted(&[70, 8, 8, if faulty { 20 } else { 0 }, 8]) {
            1 => {
                m.imports = c.t.pct(50);
                comp.include_imports(m.imports);
                log.push(format!("include_imports({})", m.imports));
            }
            2 => {
                m.info = c.t.pct(50);
                comp.include_source_info(m.info);
                log.push(format!("include_source_info({})", m.info));
            }
            3 => {
                // repair a file that has not been loaded
                let bad: Vec<usize> = (0..w.nodes.len()).filter(|i| !w.faults(&w.nodes[*i].name).is_empty()).collect();
                if bad.is_empty() {
                    continue;
                }
                let i = *c.t.pick(&bad);
                let n = &mut w.nodes[i];
                n.fault = Fault::None;
                let mut seen = BTreeSet::new();
                n.imports.retain(|im| seen.insert(im.name.clone()) && !im.name.contains("no"));
                if c.t.pct(50) {
                    // break cycles through this file
                    let name = w.nodes[i].name.clone();
                    let back: Vec<String> = w.nodes[i].imports.iter().map(|x| x.name.clone()).filter(|x| w.closure(x).contains(&name)).collect();
                    w.nodes[i].imports.retain(|x| !back.contains(&x.name));
                }
                // what files can see may have changed: rewrite all that are not loaded
                for k in 0..w.nodes.len() {
                    if !m.loaded.contains_key(&w.nodes[k].name) {
                        w.write(c.t, k, cfg.style);
                        mem.put(&w.nodes[k]);
                    }
                }
                log.push(format!("the file {} is repaired", w.nodes[i].name));
            }
            op => {
                let many = op == 4;
                let k = if many { c.t.range(0, 4) } else { 1 };
                let mut names = vec![];
                for _ in 0..k {
                    names.push(if cfg.google && c.t.pct(10) {
                        c.t.pick(GOOGLE).0.to_string()
                    } else if faulty && c.t.pct(3) {
                        "nowhere.proto".to_string()
                    } else {
                        c.t.pick(&w.nodes).name.clone()
                    });
                }
                let paths: Vec<String> = names
                    .iter()
                    .map(|n| {
                        if faulty && dir.is_some() && c.t.pct(15) {
                            format!("{ELSEWHERE}/{n}")
                        } else {
                            spelled(c.t, n, &prefix)
                        }
                    })
                    .collect();
                log.push(format!("open {paths:?}"));
                let r = subject("open", || {
                    if many {
                        comp.open_files(paths.iter()).map(|_| ())
                    } else {
                        comp.open_file(&paths[0]).map(|_| ())
                    }
                });
                let r = step(&w, &log, r.as_ref().map(|_| ()).map_err(|f| f.clone())).and(r)?;
                // the model
                let mut failing = None;
                for (name, path) in names.iter().zip(&paths) {
                    let mut exp = w.faults(name);
                    if let (true, Some(i)) = (path.starts_with(ELSEWHERE), w.by_name.get(name)) {
                        let read = matches!(w.nodes[*i].fault, Fault::Missing | Fault::Io | Fault::Custom | Fault::Syntax);
                        if !read || m.loaded.contains_key(name) {
                            exp = vec![Expect::Shadowed { name: name.clone() }];
                        }
                    }
                    if exp.is_empty() {
                        for f in w.closure(name) {
                            m.loaded.entry(f).or_insert(false);
                        }
                        reopened += m.loaded[name] as u32;
                        m.loaded.insert(name.clone(), true);
                        oks += 1;
                        after_fail += (fails > 0) as u32;
                    } else {
                        failing = Some((name.clone(), path.clone(), exp));
                        break;
                    }
                }
                match (r, failing) {
                    (Ok(()), None) => {}
                    (Err(e), None) => {
                        let f = e.file().map(str::to_string);
                        return step(&w, &log, fail("open fails", format!("opening {paths:?} fails: {e:?} (file {f:?})")));
                    }
                    (Ok(()), Some((name, _, exp))) => {
                        return step(&w, &log, fail("open succeeds", format!("opening {name} succeeds although: {exp:?}")));
                    }
                    (Err(e), Some((name, path, exp))) => {
                        fails += 1;
                        for x in &exp {
                            c.label(match x {
                                Expect::RootMissing => "root missing",
                                Expect::Shadowed { .. } => "shadowed",
                                Expect::Missing { .. } => "import missing",
                                Expect::Dup { .. } => "duplicate import",
                                Expect::Cycle { members } if members.len() == 1 => "self import",
                                Expect::Cycle { .. } => "cycle",
                                Expect::Parse { .. } => "syntax error",
                                Expect::Check { .. } => "unresolved reference",
                                Expect::Io => "i/o error",
                                Expect::Custom => "custom error",
                            });
                        }
                        if let Err(why) = subject("reading the error", || fits(&w, &e, &exp, &path))? {
                            return step(&w, &log, fail("wrong error", format!("opening {name}: {e:?}\n{why}")));
                        }
                        // valid files reached before the fault may stay loaded, as imports
                        let mut now: BTreeMap<String, bool> = m.loaded.clone();
                        let reach = w.closure(&name);
                        for f in comp.files() {
                            if !m.loaded.contains_key(f.name()) {
                                if !reach.contains(f.name()) || !w.faults(f.name()).is_empty() {
                                    return step(&w, &log, fail("failed file is kept", format!("after the failed open of {name}, {} is part of the set", f.name())));
                                }
                                now.insert(f.name().to_string(), false);
                            }
                        }
                        m.loaded = now;
                    }
                }
                if c.t.pct(70) {
                    let r = observe(&w, &m, &comp);
                    step(&w, &log, r)?;
                }
            }
        }
    }
    m.imports = c.t.pct(60);
    m.info = c.t.pct(60);
    comp.include_imports(m.imports).include_source_info(m.info);
    log.push(format!("include_imports({}) include_source_info({})", m.imports, m.info));
    let r = observe(&w, &m, &comp);
    step(&w, &log, r)?;
    // another order of the same opens on a fresh compiler yields the same files
    let mut explicit: Vec<String> = m.loaded.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
    if !explicit.is_empty() {
        for k in (1..explicit.len()).rev() {
            let j = c.t.below(k + 1);
            explicit.swap(k, k - j);
        }
        let (_, chain, _) = resolver(&w, c, &dir);
        let mut other = Compiler::with_file_resolver(chain);
        other.include_imports(true).include_source_info(true);
        comp.include_imports(true).include_source_info(true);
        log.push(format!("fresh compiler: open {explicit:?}"));
        if let Err(e) = other.open_files(&explicit) {
            return step(&w, &log, fail("open fails in another order", format!("{e:?}")));
        }
        let a: HashMap<String, FileDescriptorProto> = comp.file_descriptor_set().file.into_iter().map(|f| (f.name().to_string(), f)).collect();
        for f in other.file_descriptor_set().file {
            if a.get(f.name()) != Some(&f) {
                return step(&w, &log, fail("depends on order", format!("{} differs between orders of opens", f.name())));
            }
        }
        let only: BTreeMap<String, bool> = other.files().map(|f| (f.name().to_string(), !f.is_import())).collect();
        if only.iter().any(|(n, e)| m.loaded.get(n) != Some(e)) {
            return step(&w, &log, fail("depends on order", format!("{only:?} and {:?}", m.loaded)));
        }
    }
    c.label_if(reopened > 0, "reopened");
    c.label_if(after_fail > 0, "success after failure");
    c.label_if(m.loaded.values().any(|e| !e), "imports loaded");
    c.label_if(m.loaded.len() > 4, "more than four files");
    c.label_if(m.loaded.len() > 20, "more than twenty files");
    c.label_if(cfg.google, "standard files");
    c.nontrivial = if faulty { fails > 0 } else { oks > 1 && m.loaded.len() > 1 };
    c.key = hash_of(&(log.join("\n"), dump(&w)));
    c.sample = Some(format!("{}\n{}", log.join("\n"), dump(&w)));
    Ok(())
}

/// An unrelated file, opened before, whose package has the name a reference starts with.
fn captured(c: &mut Case) -> Result<(), Fail> {
    let m = *c.t.pick(&["A", "Foo"]);
    let w = crate::world::Mem::default();
    let src = [
        ("a.proto", format!("syntax = \"proto3\"; package pk; message {m} {{}}")),
        ("b.proto", format!("syntax = \"proto3\"; package other; import \"a.proto\"; message Root {{ pk.{m} f = 1; }}")),
        ("c.proto", "syntax = \"proto3\"; package other.pk;".to_string()),
    ];
    for (n, s) in &src {
        w.put_source(n, s);
    }
    c.label("name captured by an unrelated file");
    c.key = hash_of(&src);
    let orders = [["b.proto", "c.proto"], ["c.proto", "b.proto"]];
    let r: Vec<_> = orders.iter().map(|o| Compiler::with_file_resolver(w.clone()).open_files(o).map(|_| ())).collect();
    match (&r[0], &r[1]) {
        (Ok(()), Ok(())) => Ok(()),
        (Ok(()), Err(e)) => fail("name captured by a file that is not imported", format!("{src:?}\n{:?}: {e:?}", orders[1])),
        (e, _) => fail("valid program rejected", format!("{src:?}\n{e:?}")),
    }
}

/// Failed opens between the opens of a valid program's files leave no trace in what the other files compile to.
fn recover(c: &mut Case) -> Result<(), Fail> {
    use super::outputs::{dynamic, eq_message, files_of, with_google, Sources};
    use crate::progen;
    let cfg = progen::Cfg {
        files: 4,
        opt: 10,
        custom: *c.t.pick(&[60, 90]),
        google: 2,
        styles: &[crate::layout::Style::Plain],
        deep_public: 0,
        captured: 0,
        stray: 0,
    };
    let p = progen::generate(c.t, cfg);
    let mut sources = Sources::of(&p);
    let n = c.t.range(1, 3);
    let mut bad = vec![];
    for k in 0..n {
        let mut t = String::from("syntax = \"proto2\";\n");
        for f in &p.files {
            if c.t.pct(25) {
                t.push_str(&format!("import \"{}\";\n", f.name));
            }
        }
        let what = c.t.below(9);
        if what == 8 {
            t.push_str("import \"google/protobuf/descriptor.proto\";\n");
        }
        t.push_str(&format!("package badpk{k};\nmessage Good {{ extensions 100 to 200; message In {{}} enum En {{ EV{k} = 0; }} }}\nenum En {{ EW{k} = 0; }}\nservice Sv {{ rpc R(Good) returns (Good.In); }}\n"));
        for i in 0..c.t.below(8) {
            t.push_str(&format!("extend Good {{ optional int32 e{i} = {}; }}\n", 100 + i));
        }
        t.push_str(match what {
            0 => "message",
            1 => "message X { optional Undefined u = 1; }",
            2 => "message Good {}",
            3 => "extend Good { optional int32 z = 300; }",
            4 => "extend Good { optional int32 y = 150; optional int32 y = 151; }",
            5 => "import \"nowhere.proto\";",
            6 => "message X { option (nothing) = 1; }",
            7 => "message X { optional int32 a = 1; optional int32 b = 1; }",
            _ => "extend google.protobuf.FieldOptions { optional int32 o = 70001; } message X { optional int32 a = 1 [(o) = \"text\"]; }",
        });
        let name = format!("bad{k}.proto");
        sources.0.insert(name.clone(), t);
        bad.push(name);
    }
    let mut ops: Vec<(String, bool)> = p.files.iter().filter(|_| c.t.pct(60)).map(|f| (f.name.clone(), true)).collect();
    if ops.is_empty() {
        ops.push((p.files[0].name.clone(), true));
    }
    if c.t.pct(30) {
        ops.reverse();
    }
    for b in &bad {
        let at = c.t.below(ops.len() + 1);
        ops.insert(at, (b.clone(), false));
    }
    let art = format!("// {ops:?}\n{}", sources.0.iter().map(|(n, s)| format!("// ===== {n}\n{s}\n")).collect::<String>());
    c.key = hash_of(&art);
    c.sample = Some(art.clone());
    c.label("failed opens inside a program");
    c.nontrivial = true;
    let check = || -> Result<(), Fail> {
        let mut a = Compiler::with_file_resolver(with_google(Sources(sources.0.clone())));
        let mut b = Compiler::with_file_resolver(with_google(Sources(sources.0.clone())));
        let mut held = vec![];
        for (n, good) in &ops {
            if n.len() % 2 == 0 {
                held.push(a.descriptor_pool());
            }
            let r = subject("open", || a.open_file(n).map(|_| ()))?;
            match r {
                Ok(()) if !good => return fail("open succeeds", n),
                Err(e) if *good => return fail("open fails", format!("{n}: {e:?}")),
                _ => (),
            }
            if *good {
                if let Err(e) = b.open_file(n) {
                    return fail("valid program rejected", format!("{n}: {e:?}"));
                }
            }
        }
        let (pa, pb) = (a.descriptor_pool(), b.descriptor_pool());
        let sets = |c: &mut Compiler, i: bool| {
            c.include_imports(i).include_source_info(true);
            c.encode_file_descriptor_set()
        };
        let content = |pool: &protox::prost_reflect::DescriptorPool, f: &[u8]| {
            let mut v = vec![10];
            prost::encoding::encode_varint(f.len() as u64, &mut v);
            v.extend(f);
            if pool.get_message_by_name("google.protobuf.FileDescriptorSet").is_some() {
                dynamic(pool, &v)
            } else {
                dynamic(&protox::prost_reflect::DescriptorPool::global(), &v)
            }
        };
        for imports in [false, true] {
            let (xa, xb) = subject("encode", || (sets(&mut a, imports), sets(&mut b, imports)))?;
            let by_name = |x: &[u8]| -> Result<BTreeMap<String, Vec<u8>>, Fail> {
                Ok(files_of(x)?.into_iter().map(|f| (FileDescriptorProto::decode(f).unwrap().name().to_string(), f.to_vec())).collect())
            };
            let (ma, mb) = (by_name(&xa)?, by_name(&xb)?);
            if !imports && ma.keys().ne(mb.keys()) {
                return fail("failed file is kept", format!("explicit files {:?}", ma.keys()));
            }
            for (n, f) in &mb {
                let Some(g) = ma.get(n) else {
                    return fail("file missing after a failed open", n);
                };
                // an extension declared packed and used in one file is packed only the next time it is encoded
                if f != g && !eq_message(&content(&pb, f)?, &content(&pb, g)?) {
                    return fail("differs after a failed open", crate::cmp::diff(&FileDescriptorProto::decode(&**f).ok(), &FileDescriptorProto::decode(&**g).ok()));
                }
            }
        }
        let names: BTreeSet<String> = pb.files().map(|f| f.name().to_string()).collect();
        subject("reading the pool", || pools(&pa, &pb, &names, &bad))?
    };
    check().map_err(|f| f.with("files", &art))
}

fn pools(pa: &protox::prost_reflect::DescriptorPool, pb: &protox::prost_reflect::DescriptorPool, names: &BTreeSet<String>, bad: &[String]) -> Result<(), Fail> {
        for n in pa.files() {
            if bad.iter().any(|b| b == n.name()) {
                return fail("failed file is kept", n.name());
            }
        }
        for m in pb.all_messages() {
            let Some(o) = pa.get_message_by_name(m.full_name()) else {
                return fail("message missing in the pool", m.full_name());
            };
            let list = |m: &protox::prost_reflect::MessageDescriptor| -> BTreeSet<String> {
                m.extensions().filter(|e| names.contains(e.parent_file().name())).map(|e| e.full_name().to_string()).collect()
            };
            if list(&m) != list(&o) {
                return fail("pool forgets extensions", format!("extensions of {}: {:?}, without the failed open {:?}", m.full_name(), list(&o), list(&m)));
            }
        }
        let count = |p: &protox::prost_reflect::DescriptorPool| p.all_extensions().filter(|e| names.contains(e.parent_file().name())).count();
        if count(pa) != count(pb) {
            return fail("pool differs after a failed open", "all_extensions()");
        }
        Ok(())
}

/// A chain of N files opened from the end that imports all others, on a thread with 8 MiB of stack.
pub fn child(args: &[String]) -> i32 {
    let n: usize = args[0].parse().unwrap();
    let public = args[1] == "true";
    struct Chain(usize, bool);
    impl protox::file::FileResolver for Chain {
        fn open_file(&self, name: &str) -> Result<protox::file::File, protox::Error> {
            let i: usize = name.strip_suffix(".proto").and_then(|n| n.parse().ok()).ok_or_else(|| protox::Error::file_not_found(name))?;
            let import = if i + 1 < self.0 { format!("import {}\"{}.proto\";", if self.1 { "public " } else { "" }, i + 1) } else { String::new() };
            protox::file::File::from_source(name, &format!("syntax = \"proto3\"; {import} message M{i} {{}}"))
        }
    }
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut c = Compiler::with_file_resolver(Chain(n, public));
        if let Err(e) = c.open_file("0.proto") {
            eprintln!("{e:?}");
            return 1;
        }
        let names: Vec<String> = c.files().map(|f| f.name().to_string()).collect();
        let want: Vec<String> = (0..n).rev().map(|i| format!("{i}.proto")).collect();
        if names == want { 0 } else { 3 }
    });
    t.unwrap().join().unwrap_or(4)
}

fn chain(c: &mut Case) -> Result<(), Fail> {
    let long = c.t.pct(20);
    let n = if long { 30_000 } else { c.t.range(100, 700) };
    let public = c.t.pct(50);
    c.label(if long { "chain of 30000 imports" } else { "chain of hundreds of imports" });
    c.key = hash_of(&(n, public));
    c.nontrivial = true;
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["C16", "child", &n.to_string(), &public.to_string()])
        .output()
        .expect("harness: child");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    match o.status.code() {
        Some(0) => Ok(()),
        None if long && err.contains("overflowed its stack") => fail("a chain of thousands of imports overflows the stack", err),
        s => fail("chain of imports", format!("{n} files: {s:?} {}\n{err}", o.status)),
    }
}

pub fn run_prop(ctx: &Ctx, prop: &str, replay: Option<&str>) -> i32 {
    let s = crate::scratch::Scratch::enter(prop);
    let spec = if prop == "C16" {
        Spec {
            prop: "C16",
            rule: "a case is one acyclic import graph of generated files and one history of opens and flag changes; non-trivial: at least two successful opens and two loaded files",
            cases: ctx.scale(60_000, 1_200_000),
            assumptions: vec!["resolvers return a file of the name asked for"],
            f: &|c| {
                if c.index % 5000 == 4999 {
                    chain(c)
                } else if c.t.pct(1) {
                    captured(c)
                } else {
                    history(&s, c, false)
                }
            },
            threads: THREADS,
            shrink_budget: 4000,
        }
    } else {
        Spec {
            prop: "C17",
            rule: "a case is one import graph with faults and one history of opens, flag changes and repairs of files; non-trivial: at least one open failed",
            cases: ctx.scale(60_000, 1_200_000),
            assumptions: vec!["where several faults are reachable, any of them may be reported"],
            f: &|c| if c.t.pct(20) { recover(c) } else { history(&s, c, true) },
            threads: THREADS,
            shrink_budget: 4000,
        }
    };
    go(ctx, spec, replay)
}
