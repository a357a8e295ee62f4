//! Import graphs for the compiler-level checks: generated files with imports and faults, an
//! in-memory resolver over them, and the model of what opening a file means.
use crate::engine::Tape;
use crate::gen::{Tok, TK};
use crate::layout::*;
use protox::file::{File, FileResolver};
use protox::Error;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Copy, PartialEq, Debug, Eq)]
pub enum Fault {
    None,
    /// no such file
    Missing,
    /// a syntax error
    Syntax,
    /// a field of a type that does not exist
    Unresolved,
    /// a field of a type declared in a file that is not imported
    NotImported,
    /// the resolver fails with an I/O error
    Io,
    /// the resolver fails with an error of its own
    Custom,
}

#[derive(Clone, Debug)]
pub struct Import {
    pub name: String,
    /// 0 plain, 1 public, 2 weak
    pub kind: u8,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub package: String,
    pub imports: Vec<Import>,
    pub fault: Fault,
    pub src: String,
    /// byte range of each import statement
    pub spans: Vec<(usize, usize)>,
    /// message declared here, fully qualified
    pub message: String,
    /// fully qualified types its fields refer to, as they must be resolved
    pub refs: Vec<String>,
    /// byte range of the reference that cannot be resolved
    pub bad_ref: (usize, usize),
}

pub const GOOGLE: &[(&str, &[&str], &str)] = &[
    ("google/protobuf/any.proto", &[], "google.protobuf.Any"),
    ("google/protobuf/api.proto", &["google/protobuf/source_context.proto", "google/protobuf/type.proto"], "google.protobuf.Api"),
    ("google/protobuf/descriptor.proto", &[], "google.protobuf.FileDescriptorProto"),
    ("google/protobuf/duration.proto", &[], "google.protobuf.Duration"),
    ("google/protobuf/empty.proto", &[], "google.protobuf.Empty"),
    ("google/protobuf/field_mask.proto", &[], "google.protobuf.FieldMask"),
    ("google/protobuf/source_context.proto", &[], "google.protobuf.SourceContext"),
    ("google/protobuf/struct.proto", &[], "google.protobuf.Struct"),
    ("google/protobuf/timestamp.proto", &[], "google.protobuf.Timestamp"),
    ("google/protobuf/type.proto", &["google/protobuf/any.proto", "google/protobuf/source_context.proto"], "google.protobuf.Type"),
    ("google/protobuf/wrappers.proto", &[], "google.protobuf.BoolValue"),
    ("google/protobuf/compiler/plugin.proto", &["google/protobuf/descriptor.proto"], "google.protobuf.compiler.Version"),
];

pub struct Cfg {
    pub max_files: usize,
    /// percentage of files with a fault
    pub faults: u32,
    /// percentage of worlds with an import cycle added
    pub cycles: u32,
    pub dups: u32,
    pub google: bool,
    pub style: bool,
    /// percentage of worlds that are one long chain of imports
    pub chains: u32,
}

#[derive(Clone, Debug)]
pub struct World {
    pub nodes: Vec<Node>,
    pub by_name: HashMap<String, usize>,
}

const STEMS: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];

fn file_name(t: &mut Tape, i: usize) -> String {
    let s = STEMS.get(i).map_or_else(|| format!("n{i}"), |s| s.to_string());
    match t.weighted(&[10, 3, 2, 1, 1, 1, 1, 1]) {
        0 => format!("{s}.proto"),
        1 => format!("dir/{s}.proto"),
        2 => format!("dir/sub/{s}.proto"),
        3 => format!("é{s}.proto"),
        4 => s,
        5 => format!("x y/{s}..proto"),
        6 => format!("dir/{s}/{s}.proto"),
        _ => format!("google/protobuf/{s}.proto"),
    }
}

pub fn ident(s: &str) -> Tok {
    Tok { k: TK::Ident, s: s.to_string(), agg: false }
}
pub fn toks(src: &str) -> Vec<Tok> {
    // a tiny tokenizer for the fixed phrases used here
    let mut v = vec![];
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let st = i;
        let k = if c.is_ascii_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            TK::Ident
        } else if c.is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            TK::Int
        } else if c == '"' || c == '\'' {
            i += 1;
            while b[i] != c {
                i += 1;
            }
            i += 1;
            TK::Str
        } else {
            i += 1;
            TK::Sym
        };
        v.push(Tok { k, s: b[st..i].iter().collect(), agg: false });
    }
    v
}

impl World {
    pub fn generate(t: &mut Tape, cfg: &Cfg) -> World {
        let chain = t.pct(cfg.chains);
        let n = if chain { t.range(20, 120) } else { t.range(1, cfg.max_files) };
        let mut nodes: Vec<Node> = (0..n)
            .map(|i| {
                let package = match t.weighted(&[3, 3, 1]) {
                    0 => String::new(),
                    1 => format!("p{i}"),
                    _ => "shared.pkg".to_string(),
                };
                let message = if package.is_empty() { format!("M{i}") } else { format!("{package}.M{i}") };
                Node { name: file_name(t, i), package, imports: vec![], fault: Fault::None, src: String::new(), spans: vec![], message, refs: vec![], bad_ref: (0, 0) }
            })
            .collect();
        // edges go from lower to higher numbers, in any order within a file; which number a file
        // has is unrelated to the order of opens
        let density = if chain { if cfg.faults > 0 { 0 } else { *t.pick(&[0, 2]) } } else if n > 12 { *t.pick(&[3, 10, 30]) } else { *t.pick(&[40u32, 15, 70]) };
        for i in 0..n {
            let mut targets: Vec<String> = vec![];
            for j in i + 1..n {
                if t.pct(density) || chain && j == i + 1 {
                    targets.push(nodes[j].name.clone());
                }
            }
            if cfg.google {
                for _ in 0..t.count(0, 2) {
                    let g = t.pick(GOOGLE).0.to_string();
                    if !targets.contains(&g) {
                        targets.push(g);
                    }
                }
            }
            // a permutation
            for k in (1..targets.len()).rev() {
                let m = t.below(k + 1);
                targets.swap(k, k - m);
            }
            nodes[i].imports = targets.into_iter().map(|name| Import { name, kind: t.weighted(&[60, 25, 15]) as u8 }).collect();
        }
        let (faults, cycles, dups) = if chain && cfg.faults > 0 { (1, 70, 1) } else { (cfg.faults, cfg.cycles, cfg.dups) };
        if t.pct(cycles) {
            let a = if chain && t.pct(50) { 0 } else { t.below(n) };
            let b = if chain && t.pct(50) { n - 1 } else { t.range(a, n - 1) };
            let at = t.below(nodes[b].imports.len() + 1);
            let name = nodes[a].name.clone();
            if !nodes[b].imports.iter().any(|i| i.name == name) {
                nodes[b].imports.insert(at, Import { name, kind: t.weighted(&[60, 25, 15]) as u8 });
            }
        }
        for i in 0..n {
            if t.pct(faults) {
                nodes[i].fault = *t.pick(&[Fault::Missing, Fault::Syntax, Fault::Unresolved, Fault::NotImported, Fault::Io, Fault::Custom]);
            }
            if t.pct(dups) && !nodes[i].imports.is_empty() {
                let k = t.below(nodes[i].imports.len());
                let im = Import { name: nodes[i].imports[k].name.clone(), kind: t.weighted(&[60, 25, 15]) as u8 };
                let at = t.below(nodes[i].imports.len() + 1);
                nodes[i].imports.insert(at, im);
            }
            if t.pct(faults / 4) {
                let at = t.below(nodes[i].imports.len() + 1);
                let name = t.pick(&["nowhere.proto", "google/protobuf/nothing.proto", "dir/nowhere.proto", "google/protobuf/Any.proto"]).to_string();
                nodes[i].imports.insert(at, Import { name, kind: 0 });
            }
        }
        let mut w = World { by_name: nodes.iter().enumerate().map(|(i, n)| (n.name.clone(), i)).collect(), nodes };
        for i in 0..n {
            w.write(t, i, cfg.style);
        }
        w
    }

    /// files whose types a file may use: direct imports and what those import publicly
    pub fn visible(&self, i: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<usize> = self.nodes[i].imports.iter().filter_map(|m| self.by_name.get(&m.name).copied()).collect();
        while let Some(j) = todo.pop() {
            if seen.insert(j) {
                todo.extend(self.nodes[j].imports.iter().filter(|m| m.kind == 1).filter_map(|m| self.by_name.get(&m.name).copied()));
            }
        }
        seen
    }

    /// What a file is sure to see: direct imports and their public imports.  (prost-reflect, which
    /// resolves names, follows only one level of public imports: see DESIGN.md, C21.)
    pub fn usable(&self, i: usize) -> BTreeSet<usize> {
        let idx = |m: &Import| self.by_name.get(&m.name).copied();
        let mut seen: BTreeSet<usize> = self.nodes[i].imports.iter().filter_map(idx).collect();
        for j in seen.clone() {
            seen.extend(self.nodes[j].imports.iter().filter(|m| m.kind == 1).filter_map(idx));
        }
        seen
    }

    /// renders the text of file i
    pub fn write(&mut self, t: &mut Tape, i: usize, style: bool) {
        let vis = self.visible(i);
        let node = &self.nodes[i];
        let mut v: Vec<Tok> = toks("syntax = \"proto3\";");
        let mut ranges = vec![];
        let pkg_at = t.below(node.imports.len() + 1);
        for k in 0..=node.imports.len() {
            if k == pkg_at && !node.package.is_empty() {
                v.extend(toks(&format!("package {};", node.package)));
            }
            if k < node.imports.len() {
                let m = &node.imports[k];
                let kind = ["", "public ", "weak "][m.kind as usize];
                let q = if t.pct(30) { '\'' } else { '"' };
                let a = v.len();
                v.extend(toks(&format!("import {kind}{q}{}{q};", m.name)));
                ranges.push((a, v.len() - 1));
            }
        }
        let mut refs = vec![];
        let mut body = String::new();
        let mut num = 1;
        for j in &self.usable(i) {
            if t.pct(60) {
                let m = &self.nodes[*j].message;
                let spelled = if t.pct(50) || self.nodes[*j].package.is_empty() { format!(".{m}") } else { m.clone() };
                body.push_str(&format!("{spelled} f{num} = {num};"));
                num += 1;
                refs.push(format!(".{m}"));
            }
        }
        for m in &node.imports {
            if let Some(g) = GOOGLE.iter().find(|g| g.0 == m.name) {
                if t.pct(50) {
                    body.push_str(&format!(".{} f{num} = {num};", g.2));
                    num += 1;
                    refs.push(format!(".{}", g.2));
                }
            }
        }
        let bad_name = format!("f{num}");
        match node.fault {
            Fault::Unresolved => body.push_str(&format!("Undefined f{num} = {num};")),
            Fault::NotImported => {
                let hidden: Vec<usize> = (0..self.nodes.len()).filter(|j| *j != i && !vis.contains(j)).collect();
                let ty = if hidden.is_empty() { "google.protobuf.Undefined".to_string() } else { self.nodes[*t.pick(&hidden)].message.clone() };
                body.push_str(&format!(".{ty} f{num} = {num};"));
            }
            Fault::Syntax => body.push_str(t.pick(&["int32 x;", "}", "int32 = 1;", "message", "int32 x = 1", "map<int32> m = 5;", "required int32 r = 9;", "int32 z = 0;"])),
            _ => {}
        }
        let short = node.message.rsplit('.').next().unwrap().to_string();
        v.extend(toks(&format!("message {short} {{ {body} int32 own = 1000; }}")));
        let st = if style { *t.pick(&[Style::Plain, Style::Comments, Style::Ws]) } else { Style::Plain };
        let r = render(t, &v, st);
        let bad_ref = v.iter().position(|k| k.s == bad_name && k.k == TK::Ident).map_or((0, 0), |b| {
            let a = (0..b).rev().find(|k| matches!(v[*k].s.as_str(), ";" | "{")).unwrap() + 1;
            (r.pos[a].0, r.pos[b - 1].1)
        });
        let node = &mut self.nodes[i];
        node.bad_ref = bad_ref;
        node.spans = ranges.iter().map(|(a, b)| (r.pos[*a].0, r.pos[*b].1)).collect();
        node.src = r.src;
        node.refs = refs;
    }

    pub fn imports_of(&self, name: &str) -> Vec<String> {
        if let Some(i) = self.by_name.get(name) {
            return self.nodes[*i].imports.iter().map(|m| m.name.clone()).collect();
        }
        GOOGLE.iter().find(|g| g.0 == name).map(|g| g.1.iter().map(|s| s.to_string()).collect()).unwrap_or_default()
    }
    pub fn exists(&self, name: &str) -> bool {
        match self.by_name.get(name) {
            Some(i) => self.nodes[*i].fault != Fault::Missing,
            None => GOOGLE.iter().any(|g| g.0 == name),
        }
    }
    /// every name reachable by imports, including the root
    pub fn closure(&self, root: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![root.to_string()];
        while let Some(n) = todo.pop() {
            if self.exists(&n) && seen.insert(n.clone()) {
                todo.extend(self.imports_of(&n));
            }
        }
        seen
    }

    /// The faults opening `root` may be rejected for; empty when it must succeed.
    pub fn faults(&self, root: &str) -> Vec<Expect> {
        let mut out = vec![];
        let mut stack = vec![];
        let mut done = BTreeSet::new();
        self.walk(root, None, &mut stack, &mut done, &mut out);
        out
    }
    fn walk(&self, name: &str, importer: Option<(usize, usize)>, stack: &mut Vec<String>, done: &mut BTreeSet<String>, out: &mut Vec<Expect>) -> bool {
        if stack.iter().any(|s| s == name) {
            out.push(Expect::Cycle { members: stack[stack.iter().position(|s| s == name).unwrap()..].to_vec() });
            return false;
        }
        if !self.exists(name) {
            out.push(match importer {
                None => Expect::RootMissing,
                Some((i, k)) => Expect::Missing { importer: self.nodes[i].name.clone(), name: name.to_string(), span: self.nodes[i].spans[k] },
            });
            return false;
        }
        if done.contains(name) {
            return true;
        }
        let Some(&i) = self.by_name.get(name) else {
            // a standard file
            done.insert(name.to_string());
            return true;
        };
        let n = &self.nodes[i];
        match n.fault {
            Fault::Syntax => {
                out.push(Expect::Parse { file: name.to_string() });
                return false;
            }
            Fault::Io => {
                out.push(Expect::Io);
                return false;
            }
            Fault::Custom => {
                out.push(Expect::Custom);
                return false;
            }
            _ => {}
        }
        let before = out.len();
        stack.push(name.to_string());
        let mut seen = BTreeSet::new();
        for (k, m) in n.imports.iter().enumerate() {
            if !seen.insert(&m.name) {
                out.push(Expect::Dup { importer: name.to_string(), name: m.name.clone(), span: n.spans[k] });
            } else {
                self.walk(&m.name, Some((i, k)), stack, done, out);
            }
        }
        stack.pop();
        if out.len() == before && matches!(n.fault, Fault::Unresolved | Fault::NotImported) {
            out.push(Expect::Check { file: name.to_string(), span: n.bad_ref });
        }
        if out.len() == before {
            done.insert(name.to_string());
        }
        out.len() == before
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    RootMissing,
    Shadowed { name: String },
    Missing { importer: String, name: String, span: (usize, usize) },
    Dup { importer: String, name: String, span: (usize, usize) },
    Cycle { members: Vec<String> },
    Parse { file: String },
    Check { file: String, span: (usize, usize) },
    Io,
    Custom,
}

#[derive(Clone, Default)]
pub struct Mem {
    pub files: Arc<RwLock<BTreeMap<String, (Fault, String)>>>,
    pub log: Arc<Mutex<Vec<String>>>,
    /// paths under this directory are resolved to names
    pub prefix: Option<String>,
    /// the sources are files in this directory
    pub dir: Option<String>,
}

/// paths under this directory are resolved to names, too, but they are not where the files are
pub const ELSEWHERE: &str = "elsewhere";
pub const CUSTOM_TEXT: &str = "the resolver gave up";

impl Mem {
    pub fn of(w: &World, dir: Option<String>) -> Mem {
        let m = Mem { prefix: dir.clone(), dir, ..Mem::default() };
        for n in &w.nodes {
            m.put(n);
        }
        m
    }
    pub fn put_source(&self, name: &str, src: &str) {
        self.files.write().unwrap().insert(name.to_string(), (Fault::None, src.to_string()));
    }
    pub fn put(&self, n: &Node) {
        self.files.write().unwrap().insert(n.name.clone(), (n.fault, n.src.clone()));
        if let Some(d) = &self.dir {
            let p = std::path::Path::new(d).join(&n.name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("harness: directory");
            std::fs::write(p, &n.src).expect("harness: file");
        }
    }
}

impl FileResolver for Mem {
    fn resolve_path(&self, path: &std::path::Path) -> Option<String> {
        let under = |d: &str| Some(path.to_str()?.strip_prefix(d)?.strip_prefix('/')?.to_string());
        if let (Some(_), Some(name)) = (&self.dir, under(ELSEWHERE)) {
            return Some(name);
        }
        under(self.prefix.as_ref()?)
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.log.lock().unwrap().push(name.to_string());
        match self.files.read().unwrap().get(name) {
            None | Some((Fault::Missing, _)) => Err(Error::file_not_found(name)),
            Some((Fault::Io, _)) => Err(Error::from(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "no permission"))),
            Some((Fault::Custom, _)) => Err(Error::new(CUSTOM_TEXT)),
            Some((_, src)) => match &self.dir {
                Some(d) => File::open(name, &std::path::Path::new(d).join(name)),
                None => File::from_source(name, src),
            },
        }
    }
}
