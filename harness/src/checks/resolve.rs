//! C19: chains of resolvers, bundled files and descriptor-set resolvers.
use super::*;
use crate::scratch::Scratch;
use crate::world::GOOGLE;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Ans {
    NotFound,
    Ok,
    Io,
    Parse,
    Custom,
    Check,
    /// not found, under another name than the one asked for
    OtherNotFound,
    Empty,
    /// a file made from a descriptor
    Bare,
    Decoded,
    /// a file under another name
    Renamed,
}

/// a resolver with a fixed answer for each name
struct Fixed {
    id: usize,
    files: BTreeMap<String, Ans>,
    paths: BTreeMap<String, String>,
    log: Arc<Mutex<Vec<(usize, String)>>>,
}
fn content(id: usize, name: &str) -> String {
    format!("syntax = 'proto3'; package r{id}; option java_package = \"{}\";", name.replace(['"', '\\'], "_"))
}
fn bare(id: usize, name: &str) -> FileDescriptorProto {
    FileDescriptorProto { name: Some(name.to_string()), package: Some(format!("r{id}")), ..Default::default() }
}
impl FileResolver for Fixed {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.log.lock().unwrap().push((self.id, format!("path {}", path.display())));
        self.paths.get(path.to_str()?).cloned()
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.log.lock().unwrap().push((self.id, format!("open {name}")));
        match self.files.get(name) {
            None | Some(Ans::NotFound) => Err(Error::file_not_found(name)),
            Some(Ans::OtherNotFound) => Err(Error::file_not_found(&format!("dir/{name}"))),
            Some(Ans::Empty) => File::from_source(name, ""),
            Some(Ans::Bare) => Ok(File::from_file_descriptor_proto(bare(self.id, name))),
            Some(Ans::Decoded) => Ok(File::decode_file_descriptor_proto(&*bare(self.id, name).encode_to_vec()).unwrap()),
            Some(Ans::Renamed) => File::from_source(&format!("dir/{name}"), &content(self.id, name)),
            Some(Ans::Ok) => File::from_source(name, &content(self.id, name)),
            Some(Ans::Io) => Err(std::io::Error::new(std::io::ErrorKind::NotFound, format!("io {} {name}", self.id)).into()),
            Some(Ans::Parse) => File::from_source(name, &format!("bad{}", self.id)),
            Some(Ans::Custom) => Err(Error::new(format!("custom {} {name}", self.id))),
            Some(Ans::Check) => Err(Error::new(Box::<dyn std::error::Error + Send + Sync>::from(format!("check {} {name}", self.id)))),
        }
    }
}

const NAMES: &[&str] = &["a.proto", "b.proto", "dir/a.proto", "google/protobuf/any.proto", "google/protobuf/empty.proto", "\u{e9}", ""];
const PATHS: &[&str] = &["a.proto", "/root/a.proto", "x/y", "./a.proto", ""];

struct Built {
    resolver: Box<dyn FileResolver>,
    /// in the order of search: fixed resolvers, or the bundled one
    flat: Vec<Option<usize>>,
}

fn chain_case(c: &mut Case) -> Result<(), Fail> {
    let log = Arc::new(Mutex::new(vec![]));
    let mut fixed: Vec<(BTreeMap<String, Ans>, BTreeMap<String, String>)> = vec![];
    // a tree of chains over fixed resolvers
    fn build(t: &mut Tape, depth: usize, fixed: &mut Vec<(BTreeMap<String, Ans>, BTreeMap<String, String>)>, log: &Arc<Mutex<Vec<(usize, String)>>>) -> Built {
        let kind = if depth == 0 { 0 } else { t.weighted(&[60, 30, 10]) };
        match kind {
            1 => {
                let mut chain = ChainFileResolver::new();
                let mut flat = vec![];
                for _ in 0..t.count(0, 4) {
                    let b = build(t, depth - 1, fixed, log);
                    flat.extend(b.flat);
                    chain.add(b.resolver);
                }
                Built { resolver: if t.pct(30) { Box::new(Box::new(chain) as Box<dyn FileResolver>) } else { Box::new(chain) }, flat }
            }
            2 => Built { resolver: Box::new(GoogleFileResolver::new()), flat: vec![None] },
            _ => {
                let mut files = BTreeMap::new();
                let mut paths = BTreeMap::new();
                for n in NAMES {
                    if t.pct(35) {
                        files.insert(n.to_string(), t.pick(&[Ans::Ok, Ans::NotFound, Ans::Ok, Ans::Io, Ans::Parse, Ans::Custom, Ans::Check, Ans::OtherNotFound, Ans::Empty, Ans::Bare, Ans::Decoded, Ans::Renamed]).clone());
                    }
                }
                for p in PATHS {
                    if t.pct(25) {
                        paths.insert(p.to_string(), t.pick(NAMES).to_string());
                    }
                }
                let id = fixed.len();
                fixed.push((files.clone(), paths.clone()));
                Built { resolver: Box::new(Fixed { id, files, paths, log: log.clone() }), flat: vec![Some(id)] }
            }
        }
    }
    let mut chain = ChainFileResolver::new();
    let mut flat = vec![];
    for _ in 0..c.t.count(0, 6) {
        let b = build(c.t, 2, &mut fixed, &log);
        flat.extend(b.flat);
        chain.add(b.resolver);
    }
    let desc = format!("chain (None: bundled files): {flat:?}\nresolvers: {fixed:#?}");
    let mut hits = 0;
    for name in NAMES {
        log.lock().unwrap().clear();
        let got = subject("open_file", || chain.open_file(name))?;
        let mut asked = vec![];
        let mut want: Option<(Option<usize>, Ans)> = None;
        for r in &flat {
            match r {
                None => {
                    if GOOGLE.iter().any(|g| g.0 == *name) {
                        want = Some((None, Ans::Ok));
                        break;
                    }
                }
                Some(id) => {
                    asked.push((*id, format!("open {name}")));
                    match fixed[*id].0.get(*name) {
                        None | Some(Ans::NotFound | Ans::OtherNotFound) => {}
                        Some(a) => {
                            want = Some((Some(*id), a.clone()));
                            break;
                        }
                    }
                }
            }
        }
        let fine = match (&want, &got) {
            (None, Err(e)) => e.is_file_not_found() && format!("{e:?}").contains(&format!("'{name}'")) && e.file() == Some(*name),
            (Some((None, Ans::Ok)), Ok(f)) => f.name() == *name && f.file_descriptor_proto().package() == "google.protobuf",
            (Some((Some(id), Ans::Ok)), Ok(f)) => f.source() == Some(&content(*id, name)) && f.name() == *name && f.file_descriptor_proto().package() == format!("r{id}"),
            (Some((Some(id), Ans::Renamed)), Ok(f)) => f.source() == Some(&content(*id, name)) && f.name() == format!("dir/{name}"),
            (Some((Some(_), Ans::Empty)), Ok(f)) => f.source() == Some("") && f.name() == *name,
            (Some((Some(id), Ans::Bare | Ans::Decoded)), Ok(f)) => f.source().is_none() && f.path().is_none() && *f.file_descriptor_proto() == bare(*id, name),
            (Some((Some(id), Ans::Io)), Err(e)) => e.is_io() && format!("{e:?}").contains(&format!("io {id} {name}")) && !e.is_file_not_found(),
            (Some((Some(id), Ans::Parse)), Err(e)) => e.is_parse() && format!("{e:?}").contains(&format!("bad{id}")) && e.file() == Some(*name),
            (Some((Some(id), Ans::Custom)), Err(e)) => format!("{e}") == format!("custom {id} {name}"),
            (Some((Some(id), Ans::Check)), Err(e)) => format!("{e}") == format!("check {id} {name}"),
            _ => false,
        };
        if !fine {
            let got = got.map(|f| f.source().map(str::to_string));
            return fail("wrong answer", format!("opening {name:?}: {got:?}\nexpected the answer of {want:?}\n{desc}"));
        }
        if *log.lock().unwrap() != asked {
            return fail("resolvers asked", format!("opening {name:?} asked {:?}, expected {asked:?}\n{desc}", log.lock().unwrap()));
        }
        hits += want.is_some() as usize;
    }
    for p in PATHS {
        log.lock().unwrap().clear();
        let got = subject("resolve_path", || chain.resolve_path(Path::new(p)))?;
        let want = flat.iter().flatten().find_map(|id| fixed[*id].1.get(*p).cloned());
        if got != want {
            return fail("wrong path answer", format!("resolve_path({p:?}) is {got:?}, expected {want:?}\n{desc}"));
        }
    }
    c.nontrivial = flat.len() > 1 && hits > 0;
    c.label("chain");
    c.key = hash_of(&desc);
    c.sample = Some(desc);
    Ok(())
}

/// bundled files, through the resolver and through Compiler::new
fn google_case(s: &Scratch, c: &mut Case, dir: &Path) -> Result<(), Fail> {
    let g = c.t.pick(GOOGLE);
    let mut name = g.0.to_string();
    let exact = c.t.pct(50);
    if !exact {
        // a near miss
        let at = c.t.below(name.len());
        match c.t.below(8) {
            0 => {
                name.remove(at);
            }
            1 => name.insert(at, *c.t.pick(&['a', '/', '.', 'P'])),
            2 => name = name.to_uppercase(),
            3 => name = name.trim_start_matches("google/protobuf/").to_string(),
            4 => name = name.replace(".proto", ""),
            5 => name = format!("/{name}"),
            6 => name = c.t.pick(&["google/protobuf/plugin.proto", "google/protobuf/compiler/descriptor.proto", "google/protobuf/cpp_features.proto", "google/protobuf", "google/protobuf/any"]).to_string(),
            _ => name = name.replace("/protobuf/", "/api/"),
        }
    }
    let known = GOOGLE.iter().find(|x| x.0 == name);
    c.label(if known.is_some() { "standard name" } else { "near miss" });
    let r = GoogleFileResolver::new();
    if r.resolve_path(Path::new(&name)).is_some() {
        return fail("bundled path", "the bundled files have no paths");
    }
    let got = subject("open_file", || r.open_file(&name))?;
    match (known, &got) {
        (None, Err(e)) if e.is_file_not_found() => {}
        (Some(g), Ok(f)) => {
            let text = std::fs::read_to_string(dir.join(g.0)).expect("bundled source");
            if f.source() != Some(&text) || f.name() != name || f.path().is_some() {
                return fail("bundled content", format!("{name}: the content is not that of the standard file ({:?} ...)", f.source().map(|s| s.chars().take(200).collect::<String>())));
            }
        }
        (_, got) => return fail("bundled name", format!("{name}: {:?}", got.as_ref().map(|f| f.name().to_string()))),
    }
    c.nontrivial = true;
    c.key = hash_of(&name);
    c.sample = Some(name.clone());
    if name.contains("//") {
        // as a path this is the standard name
        return Ok(());
    }
    // the default compiler: a copy in an include directory is preferred, also for imports
    if c.t.pct(40) {
        let (one, two) = (format!("{}/one", s.fresh()), "two");
        let two = format!("{}/../{two}", one);
        for d in [&one, &two] {
            std::fs::create_dir_all(d).unwrap();
        }
        let mut owner = None;
        for (k, d) in [&one, &two].into_iter().enumerate() {
            let empty = c.t.pct(20);
            if c.t.pct(50) && Path::new(&name).is_relative() {
                let p = Path::new(d).join(&name);
                if std::fs::create_dir_all(p.parent().unwrap()).is_ok() && std::fs::write(&p, if empty { String::new() } else { format!("option java_package = \"copy{k}\";") }).is_ok() {
                    owner = owner.or(Some((k, empty)));
                }
            }
        }
        std::fs::write(format!("{two}/root.proto"), format!("import \"{name}\";")).unwrap();
        let mut comp = Compiler::new([&one, &two]).map_err(|e| Fail { sig: "new".into(), msg: format!("{e:?}"), artefacts: vec![] })?;
        let root = if c.t.pct(50) { name.clone() } else { "root.proto".to_string() };
        let r = subject("open_file", || comp.open_file(&root).map(|_| ()))?;
        let valid = !name.starts_with('/');
        match (r, owner.is_some() || known.is_some()) {
            (Err(e), false) if e.is_file_not_found() || !valid => {}
            (Ok(()), true) => {
                let f = comp.descriptor_pool().get_file_by_name(&name).map(|f| f.file_descriptor_proto().clone()).unwrap_or_default();
                let jp = f.options.unwrap_or_default().java_package().to_string();
                if owner.is_some() && !f.message_type.is_empty() {
                    return fail("wrong copy", format!("{name} opened through {root}: the copy is empty"));
                }
                let want = owner.map(|(k, empty)| if empty { String::new() } else { format!("copy{k}") });
                if want.as_ref().is_some_and(|w| *w != jp) || (want.is_none() && jp.starts_with("copy")) {
                    return fail("wrong copy", format!("{name} opened through {root}: java_package {jp:?}, expected {want:?}"));
                }
                c.label("copy in an include directory");
            }
            (r, _) => return fail("default compiler", format!("{name} through {root} with copies {owner:?}: {r:?}")),
        }
    }
    // without a copy
    let inc: Vec<&Path> = if c.t.pct(50) { vec![] } else { vec![Path::new("/nonexistent/include")] };
    let mut comp = Compiler::new(inc).map_err(|e| Fail { sig: "new".into(), msg: format!("{e:?}"), artefacts: vec![] })?;
    let r = subject("open_file", || comp.open_file(&name).map(|_| ()))?;
    match (known, r) {
        (None, Err(e)) if e.is_file_not_found() => {}
        (Some(g), Ok(())) => {
            let d = comp.descriptor_pool().get_message_by_name(g.2).map(|m| m.parent_file().name().to_string());
            if d.as_deref() != Some(&name) {
                return fail("bundled content", format!("{name}: {} is declared in {d:?}", g.2));
            }
        }
        (_, r) => return fail("default compiler", format!("{name}: {r:?}")),
    }
    Ok(())
}

/// the first file of a set with the name asked for
fn set_case(c: &mut Case) -> Result<(), Fail> {
    let names = ["a.proto", "b.proto", "dir/a.proto", "", "a", "A.proto", "\u{e9}.proto"];
    let n = c.t.count(0, 8);
    let mut set = FileDescriptorSet::default();
    for i in 0..n {
        let name = c.t.pick(&names).to_string();
        set.file.push(FileDescriptorProto {
            name: if c.t.pct(5) { None } else { Some(name) },
            package: Some(format!("p{i}")),
            syntax: if c.t.pct(50) { Some("proto3".into()) } else { None },
            ..Default::default()
        });
    }
    let bytes = set.encode_to_vec();
    let decoded = match subject("decode", || DescriptorSetFileResolver::decode(&*bytes))? {
        Ok(d) => d,
        Err(e) => return fail("decode", format!("{e}")),
    };
    let direct = DescriptorSetFileResolver::new(set.clone());
    for (what, r) in [("new", &direct), ("decode", &decoded)] {
        for name in names {
            let got = subject("open_file", || r.open_file(name))?;
            let want = set.file.iter().find(|f| f.name() == name);
            match (want, &got) {
                (None, Err(e)) if e.is_file_not_found() && e.file() == Some(name) => {}
                (Some(w), Ok(f)) if f.file_descriptor_proto() == w && f.source().is_none() && f.path().is_none() && f.name() == name => {}
                _ => return fail(format!("{what}: wrong file"), format!("{name:?}: {:?}, expected {want:?}", got.map(|f| f.file_descriptor_proto().clone()))),
            }
        }
    }
    c.label("descriptor set");
    c.nontrivial = n > 1;
    c.key = hash_of(&bytes);
    Ok(())
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C19");
    let dir = ctx.root.join("harness/protox-shadow/protobuf/src");
    let spec = Spec {
        prop: "C19",
        rule: "a case is a nested chain of up to six resolvers with fixed answers asked for every name and path, a standard name or near miss, or a descriptor set; non-trivial: more than one resolver or file and an answer other than not-found",
        cases: ctx.scale(2_000_000, 40_000_000),
        assumptions: vec!["the bundled sources are those of harness/protox-shadow (the submodule they come from is not in /repo)"],
        f: &|c| match c.t.weighted(&[70, 5, 25]) {
            0 => chain_case(c),
            1 => google_case(&s, c, &dir),
            _ => set_case(c),
        },
        threads: THREADS,
        shrink_budget: 4000,
    };
    go(ctx, spec, replay)
}
