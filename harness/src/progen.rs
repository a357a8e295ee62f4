//! Generator of programs: several files that import each other and are valid as a whole, with type
//! references at every scope, extensions, custom options, services, defaults, maps, groups, oneofs.
use crate::engine::Tape;
use crate::gen::{self, Tok, G, MAXF, SCALARS, TK};
use crate::layout::*;
use crate::world::GOOGLE;
use prost_types::field_descriptor_proto::Type;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FTy {
    Scalar(Type),
    Msg(usize),
    Enum(usize),
}
#[derive(Clone, Debug)]
pub struct FInfo {
    pub name: String,
    pub ty: FTy,
    pub repeated: bool,
    pub map: bool,
    pub oneof: Option<usize>,
    /// name of the group's message
    pub group: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub full: String,
    pub file: usize,
    pub msg: bool,
    pub p3: bool,
    pub values: Vec<String>,
    pub zero_first: bool,
    pub fields: Vec<FInfo>,
    pub done: bool,
    pub required: bool,
    /// extension ranges, half open
    pub ranges: Vec<(i32, i32)>,
    pub ext_used: Vec<i32>,
}
#[derive(Clone, Debug)]
pub struct Ext {
    pub full: String,
    pub file: usize,
    /// index into KINDS, or none for an extension of a message
    pub kind: Option<usize>,
    pub extendee: Option<usize>,
    pub ty: FTy,
    pub repeated: bool,
    pub group: bool,
}
/// a type reference in the source
#[derive(Clone, Debug)]
pub struct Site {
    pub a: usize,
    pub b: usize,
    pub target: String,
    pub target_file: usize,
    pub what: &'static str,
}
#[derive(Clone, Debug)]
pub struct PFile {
    pub name: String,
    pub package: String,
    pub p3: bool,
    pub imports: Vec<(String, u8)>,
    /// token range of each import statement
    pub import_toks: Vec<(usize, usize)>,
    pub toks: Vec<Tok>,
    pub sites: Vec<Site>,
    pub src: String,
}
#[derive(Clone)]
pub struct Program {
    pub files: Vec<PFile>,
    pub feats: BTreeSet<&'static str>,
    pub ents: Vec<Ent>,
}

pub const KINDS: &[&str] = &["File", "Message", "Field", "Oneof", "Enum", "EnumValue", "Service", "Method", "ExtensionRange"];
const STD: &[&[(&str, &str)]] = &[
    &[
        ("java_package", "s"), ("java_outer_classname", "s"), ("java_multiple_files", "b"), ("java_string_check_utf8", "b"),
        ("optimize_for", "eSPEED|CODE_SIZE"), ("go_package", "s"), ("cc_generic_services", "b"), ("java_generic_services", "b"),
        ("py_generic_services", "b"), ("deprecated", "b"), ("cc_enable_arenas", "b"), ("objc_class_prefix", "s"), ("csharp_namespace", "s"),
        ("swift_prefix", "s"), ("php_class_prefix", "s"), ("php_namespace", "s"), ("php_metadata_namespace", "s"), ("ruby_package", "s"),
    ],
    &[("deprecated", "b"), ("no_standard_descriptor_accessor", "b")],
    &[("deprecated", "b")],
    &[],
    &[("deprecated", "b")],
    &[("deprecated", "b")],
    &[("deprecated", "b")],
    &[("deprecated", "b"), ("idempotency_level", "eNO_SIDE_EFFECTS|IDEMPOTENT|IDEMPOTENCY_UNKNOWN")],
    &[],
];

pub struct Cfg {
    pub files: usize,
    pub opt: u32,
    pub custom: u32,
    pub google: u32,
    pub styles: &'static [Style],
    /// references through several levels of public imports
    pub deep_public: u32,
    /// option names that mean something else when looked up from inside the element they are on
    pub captured: u32,
    /// names declared in files that are not imported but which capture a relative reference
    pub stray: u32,
}

const MSGS: &[&str] = &["Msg", "A", "B", "Foo", "Bar", "Inner", "Outer", "HTTPRequest", "Node", "Item_X"];
const ENUMS: &[&str] = &["Kind", "E", "State", "Color"];
const FIELDS: &[&str] = &[
    "a", "foo", "foo_bar", "value", "key", "name", "x1", "very_long_field_name_here", "Upper", "camelCase", "message", "optional_", "id", "to", "max", "stream", "package", "a_1_b",
    "foo__bar", "bar_", "HTTPStatus", "default", "returns", "rpc",
];
const PACKAGES: &[&str] = &["", "pk", "pk.sub", "pk.sub.deep", "other", "other.pk", "v1", "pk"];

struct Sk {
    ent: usize,
    name: String,
    nested: Vec<Sk>,
    enums: Vec<(usize, String)>,
}

pub struct P<'t> {
    g: G<'t>,
    cfg: Cfg,
    ents: Vec<Ent>,
    exts: Vec<Ext>,
    syms: HashSet<String>,
    /// the fields and oneofs among them
    fieldish: HashSet<String>,
    /// synthetic oneofs of the message being generated
    synth: Vec<String>,
    /// names whose later declaration would capture a reference
    forbidden: HashSet<String>,
    /// the same for references of earlier files
    forbidden_old: HashSet<String>,
    files: Vec<PFile>,
    vis: BTreeSet<usize>,
    gvis: BTreeSet<&'static str>,
    cur: usize,
    p3: bool,
    scope: String,
    sites: Vec<Site>,
    uniq: usize,
    oneofs: usize,
}

fn join(scope: &str, n: &str) -> String {
    if scope.is_empty() {
        n.to_string()
    } else {
        format!("{scope}.{n}")
    }
}
fn lc(n: &str) -> String {
    n.to_ascii_lowercase().replace('_', "")
}

pub fn generate(t: &mut Tape, cfg: Cfg) -> Program {
    let nfiles = t.range(1, cfg.files);
    let styles = cfg.styles;
    let gc = gen::Cfg { lit: 15, ..gen::Cfg::default() };
    let mut p = P {
        g: G::new(t, gc),
        cfg,
        ents: vec![],
        exts: vec![],
        syms: HashSet::new(),
        fieldish: HashSet::new(),
        synth: vec![],
        forbidden: HashSet::new(),
        forbidden_old: HashSet::new(),
        files: vec![],
        vis: BTreeSet::new(),
        gvis: BTreeSet::new(),
        cur: 0,
        p3: false,
        scope: String::new(),
        sites: vec![],
        uniq: 0,
        oneofs: 0,
    };
    for g in GOOGLE {
        p.sym_all(g.2);
    }
    for n in ["google.protobuf.Value", "google.protobuf.ListValue", "google.protobuf.Method", "google.protobuf.Field", "google.protobuf.Enum", "google.protobuf.Option"] {
        p.sym_all(n);
    }
    for _ in 0..nfiles {
        p.file();
    }
    let mut files = p.files;
    let feats = p.g.feats;
    let ents = p.ents;
    let t = p.g.t;
    for f in &mut files {
        let st = *t.pick(styles);
        f.src = render(t, &f.toks, st).src;
    }
    Program { files, feats, ents }
}

impl P<'_> {
    fn sym_all(&mut self, full: &str) {
        let mut s = String::new();
        for c in full.split('.') {
            s = join(&s, c);
            self.syms.insert(s.clone());
        }
    }
    fn pct(&mut self, n: u32) -> bool {
        self.g.t.pct(n)
    }
    fn below(&mut self, n: usize) -> usize {
        self.g.t.below(n)
    }
    fn id(&mut self, s: &str) {
        self.g.id(s);
    }
    fn sym(&mut self, s: &str) {
        self.g.sym(s);
    }
    fn dotted(&mut self, s: &str) {
        for (i, c) in s.split('.').enumerate() {
            if i > 0 {
                self.sym(".");
            }
            if !c.is_empty() {
                self.id(c);
            }
        }
    }
    fn feat(&mut self, f: &'static str) {
        self.g.feats.insert(f);
    }
    /// an unused name in the current scope
    fn fresh(&mut self, pool: &[&str]) -> String {
        let base = self.g.t.pick(pool).to_string();
        let mut n = base.clone();
        while self.taken(&join(&self.scope, &n)) {
            self.uniq += 1;
            n = format!("{base}{}", self.uniq);
        }
        self.syms.insert(join(&self.scope, &n));
        n
    }
    fn strays(&self, package: &str) -> bool {
        let mut s = String::new();
        package.split('.').any(|c| {
            s = join(&s, c);
            self.forbidden_old.contains(&s)
        })
    }
    fn taken(&mut self, full: &str) -> bool {
        if self.syms.contains(full) || self.forbidden.contains(full) {
            return true;
        }
        if self.forbidden_old.contains(full) {
            if self.cfg.stray == 0 {
                return true;
            }
            self.feat("captured by a file not imported");
        }
        false
    }
    fn claim(&mut self, full: String) -> bool {
        !self.taken(&full) && self.syms.insert(full)
    }
    fn string(&mut self) {
        let b = self.g.bytes_value(true);
        let b: Vec<u8> = b.into_iter().filter(|c| *c != 0).collect();
        let b = String::from_utf8(b).unwrap();
        self.g.string(b.as_bytes());
    }
    fn plain_string(&mut self, s: &str) {
        let q = if self.pct(30) { '\'' } else { '"' };
        self.g.tok(TK::Str, &format!("{q}{s}{q}"));
    }

    // ------------------------------------------------------------------ file
    fn file(&mut self) {
        let i = self.files.len();
        self.cur = i;
        self.p3 = self.pct(50);
        self.sites.clear();
        let old = std::mem::take(&mut self.forbidden);
        self.forbidden_old.extend(old);
        let stem = ["a", "b", "c", "d", "e", "f", "g", "h"][i % 8];
        let name = match self.g.t.weighted(&[12, 4, 2, 1, 1]) {
            0 => format!("{stem}.proto"),
            1 => format!("dir/{stem}.proto"),
            2 => format!("dir/sub_x/{stem}-y.proto"),
            3 => format!("google/protobuf/{stem}.proto"),
            _ => format!("google/{stem}/{stem}.proto"),
        };
        let mut package = self.g.t.pick(PACKAGES).to_string();
        if self.strays(&package) {
            if self.cfg.stray > 0 {
                self.feat("captured by a file not imported");
            } else {
                package = String::new();
            }
        }
        if !package.is_empty() {
            self.sym_all(&package);
        }
        // imports
        let mut imports: Vec<(String, u8)> = vec![];
        for j in 0..i {
            if self.pct(60) {
                let k = self.g.t.weighted(&[60, 35, 5]) as u8;
                imports.push((self.files[j].name.clone(), k));
            }
        }
        let mut want_desc = self.pct(self.cfg.custom);
        for g in GOOGLE {
            if g.0.ends_with("compiler/plugin.proto") {
                continue;
            }
            let is_desc = g.0.ends_with("descriptor.proto");
            if (is_desc && want_desc) || (!is_desc && self.pct(self.cfg.google)) {
                let k = self.g.t.weighted(&[80, 20]) as u8;
                imports.push((g.0.to_string(), k));
                if is_desc {
                    want_desc = false;
                }
            }
        }
        for k in (1..imports.len()).rev() {
            let m = self.below(k + 1);
            imports.swap(k, k - m);
        }
        self.files.push(PFile { name, package: package.clone(), p3: self.p3, imports: imports.clone(), import_toks: vec![], toks: vec![], sites: vec![], src: String::new() });
        self.visible(i);
        self.scope = package.clone();
        // skeleton
        let nm = self.g.t.count(0, 4);
        let ne = self.g.t.count(0, 2);
        let sks: Vec<Sk> = (0..nm).map(|_| self.skel(0)).collect();
        let ens: Vec<(usize, String)> = (0..ne).map(|_| self.skel_enum()).collect();
        // text
        self.g.toks.clear();
        if self.p3 || self.pct(60) {
            self.id("syntax");
            self.sym("=");
            self.plain_string(if self.p3 { "proto3" } else { "proto2" });
            self.sym(";");
        }
        if !package.is_empty() {
            self.id("package");
            self.dotted(&package);
            self.sym(";");
        }
        let mut import_toks = vec![];
        let late = self.pct(6);
        if !late {
            self.imports(&imports, &mut import_toks);
        }
        enum D {
            M(Sk),
            E((usize, String)),
            X,
            S,
            O,
        }
        let mut ds: Vec<D> = sks.into_iter().map(D::M).chain(ens.into_iter().map(D::E)).collect();
        for _ in 0..self.g.t.count(0, 2) {
            ds.push(D::X);
        }
        for _ in 0..self.g.t.count(0, 2) {
            ds.push(D::S);
        }
        if self.pct(self.cfg.opt * 2) {
            ds.push(D::O);
        }
        for k in (1..ds.len()).rev() {
            let m = self.below(k + 1);
            ds.swap(k, k - m);
        }
        // the only place for file options is one statement group: each option once
        for d in ds {
            match d {
                D::M(s) => self.message(&s),
                D::E((e, n)) => self.enumeration(e, &n),
                D::X => self.extend(),
                D::S => self.service(),
                D::O => {
                    let sc = join(&self.scope, "dummy");
                    self.option_statements(0, &sc)
                }
            }
            if self.pct(3) {
                self.sym(";");
            }
        }
        if late {
            self.imports(&imports, &mut import_toks);
        }
        let f = &mut self.files[i];
        f.toks = std::mem::take(&mut self.g.toks);
        f.import_toks = import_toks;
        f.sites = std::mem::take(&mut self.sites);
        self.g.locs.clear();
        for t in &mut f.toks {
            t.agg = false;
            if t.k == TK::Float {
                // as do leading zeros of a float
                while t.s.starts_with('0') && t.s.as_bytes().get(1).is_some_and(u8::is_ascii_digit) {
                    t.s.remove(0);
                }
            }
            if t.k == TK::Str && t.s.contains("\\X") {
                // protoc has no `\X` escapes
                let mut o = String::new();
                let mut esc = false;
                for c in t.s.chars() {
                    o.push(if esc && c == 'X' { 'x' } else { c });
                    esc = !esc && c == '\\';
                }
                t.s = o;
            }
        }
    }
    fn imports(&mut self, imports: &[(String, u8)], out: &mut Vec<(usize, usize)>) {
        for (n, k) in imports {
            let a = self.g.toks.len();
            self.id("import");
            if *k > 0 {
                self.id(["", "public", "weak"][*k as usize]);
            }
            self.plain_string(n);
            self.sym(";");
            out.push((a, self.g.toks.len() - 1));
        }
    }
    /// which files' declarations file i may use
    fn visible(&mut self, i: usize) {
        let idx: HashMap<String, usize> = self.files.iter().enumerate().map(|(k, f)| (f.name.clone(), k)).collect();
        let deep = self.pct(self.cfg.deep_public);
        let mut vis = BTreeSet::from([i]);
        let mut gvis = BTreeSet::new();
        let google = |n: &str| GOOGLE.iter().find(|g| g.0 == n).map(|g| g.0);
        let mut todo: Vec<(String, usize)> = self.files[i].imports.iter().map(|m| (m.0.clone(), 0)).collect();
        while let Some((n, d)) = todo.pop() {
            if let Some(g) = google(&n) {
                gvis.insert(g);
                continue;
            }
            let j = idx[&n];
            let new = vis.insert(j);
            if d > 1 && new {
                self.g.feats.insert("public import chain");
            }
            if (d == 0 || deep) && (new || d == 0) {
                todo.extend(self.files[j].imports.iter().filter(|m| m.1 == 1).map(|m| (m.0.clone(), d + 1)));
            }
        }
        self.vis = vis;
        self.gvis = gvis;
    }
    fn new_ent(&mut self, name: &str, msg: bool) -> usize {
        self.ents.push(Ent {
            full: join(&self.scope, name),
            file: self.cur,
            msg,
            p3: self.p3,
            values: vec![],
            zero_first: true,
            fields: vec![],
            done: false,
            required: false,
            ranges: vec![],
            ext_used: vec![],
        });
        self.ents.len() - 1
    }
    fn skel(&mut self, depth: usize) -> Sk {
        let name = self.fresh(MSGS);
        let ent = self.new_ent(&name, true);
        let outer = std::mem::replace(&mut self.scope, String::new());
        self.scope = join(&outer, &name);
        let (mut nested, mut enums) = (vec![], vec![]);
        if depth < 3 {
            for _ in 0..self.g.t.count(0, 2) {
                nested.push(self.skel(depth + 1));
            }
            for _ in 0..self.g.t.count(0, 1) {
                enums.push(self.skel_enum());
            }
        }
        self.scope = outer;
        Sk { ent, name, nested, enums }
    }
    fn skel_enum(&mut self) -> (usize, String) {
        let name = self.fresh(ENUMS);
        let e = self.new_ent(&name, false);
        let n = self.g.t.range(1, 4);
        self.ents[e].zero_first = self.p3 || self.pct(70);
        for _ in 0..n {
            self.uniq += 1;
            let v = match self.below(3) {
                0 => format!("V{}", self.uniq),
                1 => format!("{}_V{}", name.to_uppercase(), self.uniq),
                _ => format!("val_{}", self.uniq),
            };
            self.syms.insert(join(&self.scope, &v));
            self.ents[e].values.push(v);
        }
        (e, name)
    }

    // ------------------------------------------------------------------ references
    /// do the last k components, looked up from a scope, mean the whole name?
    fn fits(&self, comps: &[&str], k: usize, from: &str) -> bool {
        let first = comps[comps.len() - k];
        let home = comps[..comps.len() - k].join(".");
        let mut sc = from.to_string();
        loop {
            if sc == home {
                return true;
            }
            if self.syms.contains(&join(&sc, first)) || sc.is_empty() {
                return false;
            }
            sc = sc.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default();
        }
    }
    fn forbid(&mut self, first: &str, from: &str, home: &str) {
        let mut sc = from.to_string();
        while sc != home && !sc.is_empty() {
            self.forbidden.insert(join(&sc, first));
            sc = sc.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default();
        }
    }
    /// Emits a reference to a full name from the current scope (or from inside `inner`).
    fn reference(&mut self, full: &str, target_file: usize, inner: Option<&str>, within: Option<&str>, what: &'static str) {
        let from = inner.map(str::to_string).unwrap_or_else(|| self.scope.clone());
        let comps: Vec<&str> = full.split('.').collect();
        let mut ok = vec![];
        // spelled with the last k components
        let fits = |k: usize, from: &str| self.fits(&comps, k, from);
        let captured = within.is_some() && self.cfg.captured > 0;
        for k in 1..=comps.len() {
            if fits(k, &from) && (captured || within.is_none_or(|w| fits(k, w))) {
                ok.push(k);
            }
        }
        let bad: Vec<usize> = ok.iter().copied().filter(|k| within.is_some_and(|w| !fits(*k, w))).collect();
        let a = self.g.toks.len();
        if ok.is_empty() || self.pct(30) {
            self.sym(".");
            self.dotted(full);
            self.feat("absolute reference");
        } else {
            let k = *self.g.t.pick(&ok);
            let home = comps[..comps.len() - k].join(".");
            if bad.contains(&k) {
                self.feat("option name captured");
            }
            self.forbid(comps[comps.len() - k], within.unwrap_or(&from), &home);
            self.dotted(&comps[comps.len() - k..].join("."));
            self.feat(if k == comps.len() { "full reference" } else { "relative reference" });
        }
        let b = self.g.toks.len() - 1;
        if target_file != self.cur {
            self.feat("reference to another file");
        }
        self.sites.push(Site { a, b, target: full.to_string(), target_file, what });
    }
    fn pick_ent(&mut self, msg: bool, f: &dyn Fn(&Ent) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.ents.len()).filter(|i| self.ents[*i].msg == msg && self.vis.contains(&self.ents[*i].file) && f(&self.ents[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.g.t.pick(&v))
        }
    }
    fn emit_ent(&mut self, e: usize, what: &'static str) {
        let (full, file) = (self.ents[e].full.clone(), self.ents[e].file);
        self.reference(&full, file, None, None, what)
    }
    /// emits a field type
    fn field_type(&mut self) -> FTy {
        let p3 = self.p3;
        match self.g.t.weighted(&[50, 25, 15, 6]) {
            1 => {
                if let Some(e) = self.pick_ent(true, &|_| true) {
                    self.emit_ent(e, "field type");
                    return FTy::Msg(e);
                }
            }
            2 => {
                if let Some(e) = self.pick_ent(false, &|e| !p3 || e.p3) {
                    self.emit_ent(e, "field type");
                    return FTy::Enum(e);
                }
            }
            3 => {
                let v: Vec<&str> = self.gvis.iter().copied().collect();
                if !v.is_empty() {
                    let n = *self.g.t.pick(&v);
                    let full = GOOGLE.iter().find(|g| g.0 == n).unwrap().2;
                    self.reference(full, usize::MAX, None, None, "standard type");
                    self.feat("standard type");
                    return FTy::Msg(usize::MAX);
                }
            }
            _ => {}
        }
        let (s, ty) = *self.g.t.pick(SCALARS);
        self.id(s);
        FTy::Scalar(ty)
    }

    // ------------------------------------------------------------------ message
    fn number(&mut self, used: &mut Vec<(i32, i32)>, width: i32) -> i32 {
        loop {
            let n = match self.g.t.weighted(&[70, 20, 5, 5]) {
                0 => 1 + self.below(40) as i32,
                1 => 1 + self.below(18000) as i32,
                2 => *self.g.t.pick(&[18999, 20000, MAXF, 536870900, 15, 16, 2047, 2048]),
                _ => 20000 + (self.g.t.u32() % 400_000_000) as i32,
            };
            let end = n.saturating_add(width);
            if n + width > MAXF + 1 || (n < 20000 && end > 19000) || used.iter().any(|(a, b)| n < *b && end > *a) {
                if self.g.t.used() > 300_000 || self.uniq > 1_000_000 {
                    panic!("no number left");
                }
                // a replayed tape gives zeros for ever: walk upwards then
                let mut m = n.max(1);
                for _ in 0..5000 {
                    let e = m.saturating_add(width);
                    if !((m < 20000 && e > 19000) || used.iter().any(|(a, b)| m < *b && e > *a) || e > MAXF + 1) {
                        used.push((m, e));
                        return m;
                    }
                    m += 1;
                }
                continue;
            }
            used.push((n, end));
            return n;
        }
    }
    /// the name of a synthetic oneof, which then has to be called something else
    fn steal(&mut self, names: Option<&mut HashSet<String>>) -> Option<String> {
        if self.synth.is_empty() || !self.pct(25) {
            return None;
        }
        let k = self.below(self.synth.len());
        let n = self.synth[k].clone();
        let mut new = format!("X{n}");
        while self.fieldish.contains(&join(&self.scope, &new)) {
            new.insert(0, 'X');
        }
        let full = join(&self.scope, &new);
        if self.taken(&full) {
            return None;
        }
        if let Some(names) = names {
            if !names.insert(lc(&n)) {
                return None;
            }
        }
        self.syms.insert(full);
        self.synth[k] = new;
        self.feat("synthetic oneof conflict");
        Some(n)
    }
    fn field_name(&mut self, names: &mut HashSet<String>) -> String {
        loop {
            let n = self.fresh(FIELDS);
            if names.insert(lc(&n)) {
                return n;
            }
            // the symbol stays taken, which is harmless
        }
    }
    fn message(&mut self, sk: &Sk) {
        self.id("message");
        self.id(&sk.name);
        self.sym("{");
        self.body(sk.ent, &sk.nested, &sk.enums, &sk.name);
        self.sym("}");
    }
    fn body(&mut self, ent: usize, nested: &[Sk], enums: &[(usize, String)], name: &str) {
        let outer = self.scope.clone();
        self.scope = join(&outer, name);
        let me = self.scope.clone();
        let mut used: Vec<(i32, i32)> = vec![];
        let mut names: HashSet<String> = HashSet::new();
        let outer_synth = std::mem::take(&mut self.synth);
        #[derive(Clone, Copy)]
        enum M {
            Nested(usize),
            Enum(usize),
            Field,
            Map,
            Group,
            Oneof,
            Extend,
            Reserved,
            ReservedName,
            Range,
            Options,
        }
        let mut ms: Vec<M> = (0..nested.len()).map(M::Nested).chain((0..enums.len()).map(M::Enum)).collect();
        let n = self.g.t.count(0, 8);
        for _ in 0..n {
            ms.push(match self.g.t.weighted(&[60, 8, if self.p3 { 0 } else { 8 }, 8, 5, 3, 2, if self.p3 { 0 } else { 6 }]) {
                0 => M::Field,
                1 => M::Map,
                2 => M::Group,
                3 => M::Oneof,
                4 => M::Extend,
                5 => M::Reserved,
                6 => M::ReservedName,
                _ => M::Range,
            });
        }
        if self.pct(self.cfg.opt) {
            ms.push(M::Options);
        }
        for k in (1..ms.len()).rev() {
            let m = self.below(k + 1);
            ms.swap(k, k - m);
        }
        for m in ms {
            match m {
                M::Nested(k) => self.message(&nested[k]),
                M::Enum(k) => {
                    let (e, n) = enums[k].clone();
                    self.enumeration(e, &n)
                }
                M::Field => {
                    let f = self.field(ent, &mut used, &mut names, None);
                    self.ents[ent].fields.push(f);
                }
                M::Map => {
                    let f = self.map(&mut used, &mut names);
                    self.ents[ent].fields.push(f);
                }
                M::Group => {
                    let label = *self.g.t.pick(&["optional", "repeated", "required"]);
                    if label == "required" {
                        self.ents[ent].required = true;
                    }
                    self.id(label);
                    let mut f = self.group(&mut used, &mut names);
                    f.repeated = label == "repeated";
                    self.ents[ent].fields.push(f);
                }
                M::Oneof => {
                    self.id("oneof");
                    let n = match self.steal(None) {
                        Some(n) => n,
                        None => self.fresh(&["one", "choice", "kind_of", "value_case", "O", "_id", "_name"]),
                    };
                    self.fieldish.insert(join(&self.scope, &n));
                    self.oneofs += 1;
                    let o = self.oneofs;
                    self.id(&n);
                    self.sym("{");
                    if self.pct(self.cfg.opt) {
                        let sc = join(&me, &n);
                        self.option_statements(3, &sc);
                    }
                    for _ in 0..self.g.t.range(1, 3) {
                        let f = if !self.p3 && self.pct(10) {
                            self.feat("group in oneof");
                            let mut f = self.group(&mut used, &mut names);
                            f.oneof = Some(o);
                            f
                        } else {
                            self.field(ent, &mut used, &mut names, Some(o))
                        };
                        self.ents[ent].fields.push(f);
                    }
                    self.sym("}");
                    self.feat("oneof");
                }
                M::Extend => self.extend(),
                M::Reserved => {
                    self.id("reserved");
                    for k in 0..self.g.t.range(1, 3) {
                        if k > 0 {
                            self.sym(",");
                        }
                        let w = if self.pct(50) { 1 } else { 1 + self.below(20) as i32 };
                        let a = self.number(&mut used, w);
                        self.g.int(a as u64);
                        if w > 1 || self.pct(10) {
                            self.id("to");
                            if a + w - 1 == MAXF && self.pct(50) {
                                self.id("max");
                            } else {
                                self.g.int((a + w - 1) as u64);
                            }
                        }
                    }
                    self.sym(";");
                    self.feat("reserved");
                }
                M::ReservedName => {
                    self.id("reserved");
                    for k in 0..self.g.t.range(1, 2) {
                        if k > 0 {
                            self.sym(",");
                        }
                        let n = self.field_name(&mut names);
                        self.plain_string(&n);
                    }
                    self.sym(";");
                }
                M::Range => {
                    self.id("extensions");
                    for k in 0..self.g.t.range(1, 2) {
                        if k > 0 {
                            self.sym(",");
                        }
                        let w = 1 + self.below(30) as i32;
                        let a = self.number(&mut used, w);
                        self.g.int(a as u64);
                        if w > 1 {
                            self.id("to");
                            self.g.int((a + w - 1) as u64);
                        }
                        self.ents[ent].ranges.push((a, a + w));
                    }
                    if self.pct(self.cfg.opt) {
                        self.bracket(8, &me.clone(), vec![]);
                    }
                    self.sym(";");
                    self.feat("extension range");
                }
                M::Options => self.option_statements(1, &me),
            }
            if self.pct(3) {
                self.sym(";");
            }
        }
        self.ents[ent].done = true;
        self.synth = outer_synth;
        self.scope = outer;
    }
    fn field(&mut self, ent: usize, used: &mut Vec<(i32, i32)>, names: &mut HashSet<String>, oneof: Option<usize>) -> FInfo {
        let mut label = "";
        if oneof.is_none() {
            label = if self.p3 { *self.g.t.pick(&["", "repeated", "optional", ""]) } else { *self.g.t.pick(&["optional", "repeated", "required", "optional"]) };
            if !label.is_empty() {
                self.id(label);
            }
        }
        if label == "required" {
            self.ents[ent].required = true;
        }
        let ty = self.field_type();
        let mut n = match self.steal(Some(names)) {
            Some(n) => n,
            None => self.field_name(names),
        };
        if label == "optional" && self.p3 {
            // its synthetic oneof is a symbol, too
            let o = loop {
                let mut o = if n.starts_with('_') { format!("X{n}") } else { format!("_{n}") };
                while self.fieldish.contains(&join(&self.scope, &o)) {
                    self.feat("synthetic oneof conflict");
                    o.insert(0, 'X');
                }
                if !self.taken(&join(&self.scope, &o)) {
                    break o;
                }
                n = self.field_name(names);
            };
            let full = join(&self.scope, &o);
            self.syms.insert(full);
            self.synth.push(o);
            self.feat("proto3 optional");
        }
        self.fieldish.insert(join(&self.scope, &n));
        self.id(&n);
        self.sym("=");
        let num = self.number(used, 1);
        self.g.int(num as u64);
        let full = join(&self.scope, &n);
        self.field_options(ty, label, true, &full);
        self.sym(";");
        FInfo { name: n, ty, repeated: label == "repeated", map: false, oneof, group: None }
    }
    fn field_options(&mut self, ty: FTy, label: &str, json: bool, full: &str) {
        let mut pre: Vec<Vec<Tok>> = vec![];
        if !self.p3 && label != "repeated" && self.pct(15) {
            let mark = self.g.toks.len();
            self.id("default");
            self.sym("=");
            let ok = match ty {
                FTy::Scalar(t) => {
                    let (v, _) = self.g.default_value(Some(t));
                    self.g.toks.extend(v);
                    true
                }
                FTy::Enum(e) => {
                    let v = self.g.t.pick(&self.ents[e].values).clone();
                    self.id(&v);
                    !v.is_empty()
                }
                FTy::Msg(_) => false,
            };
            let toks = self.g.toks.split_off(mark);
            if ok {
                self.feat("default");
                pre.push(toks);
            }
        }
        if json && self.pct(6) {
            let mark = self.g.toks.len();
            self.id("json_name");
            self.sym("=");
            self.uniq += 1;
            let n = format!("{}{}", self.g.t.pick(&["json", "J-son ", "\u{e9}", "x.y"]), self.uniq);
            self.plain_string(&n);
            let v = self.g.toks.split_off(mark);
            pre.push(v);
        }
        let mut simple = |s: &mut Self, k: &str, v: &str| {
            let mark = s.g.toks.len();
            s.id(k);
            s.sym("=");
            s.id(v);
            let v = s.g.toks.split_off(mark);
            pre.push(v);
        };
        match ty {
            FTy::Scalar(Type::String) if self.pct(5) => {
                let v = *self.g.t.pick(&["CORD", "STRING_PIECE", "STRING"]);
                simple(self, "ctype", v)
            }
            FTy::Scalar(Type::Int64 | Type::Uint64 | Type::Sint64 | Type::Fixed64 | Type::Sfixed64) if self.pct(8) => {
                let v = *self.g.t.pick(&["JS_STRING", "JS_NUMBER", "JS_NORMAL"]);
                simple(self, "jstype", v)
            }
            FTy::Scalar(t) if label == "repeated" && !matches!(t, Type::String | Type::Bytes) && self.pct(15) => {
                let v = *self.g.t.pick(&["true", "false"]);
                simple(self, "packed", v)
            }
            FTy::Msg(e) if e != usize::MAX && label == "optional" && self.pct(6) => {
                let v = *self.g.t.pick(&["true", "false"]);
                simple(self, "lazy", v)
            }
            _ => {}
        }
        if !pre.is_empty() || self.pct(self.cfg.opt) {
            self.bracket(2, full, pre);
        }
    }
    fn map(&mut self, used: &mut Vec<(i32, i32)>, names: &mut HashSet<String>) -> FInfo {
        self.id("map");
        self.sym("<");
        let keys: Vec<&(&str, Type)> = SCALARS.iter().filter(|s| !matches!(s.1, Type::Double | Type::Float | Type::Bytes)).collect();
        let k = self.g.t.pick(&keys).0;
        self.id(k);
        self.sym(",");
        let p3 = self.p3;
        // the value's type is resolved in the scope of the entry message
        let ty = match self.g.t.weighted(&[50, 30, 15]) {
            1 => self.pick_ent(true, &|_| true).map(FTy::Msg),
            2 => self.pick_ent(false, &|e| e.zero_first && (!p3 || e.p3)).map(FTy::Enum),
            _ => None,
        };
        let ty = match ty {
            Some(FTy::Msg(e)) | Some(FTy::Enum(e)) => {
                self.emit_ent(e, "map value type");
                ty.unwrap()
            }
            _ => {
                let (s, t) = *self.g.t.pick(SCALARS);
                self.id(s);
                FTy::Scalar(t)
            }
        };
        self.sym(">");
        let n = loop {
            let n = self.field_name(names);
            self.fieldish.insert(join(&self.scope, &n));
            let e = join(&self.scope, &format!("{}Entry", gen::camel(&n)));
            if self.claim(e.clone()) {
                for k in ["key", "value"] {
                    self.syms.insert(join(&e, k));
                }
                break n;
            }
        };
        self.id(&n);
        self.sym("=");
        let num = self.number(used, 1);
        self.g.int(num as u64);
        let full = join(&self.scope, &n);
        self.field_options(FTy::Msg(usize::MAX), "map", true, &full);
        self.sym(";");
        self.feat("map");
        FInfo { name: n, ty, repeated: true, map: true, oneof: None, group: None }
    }
    /// `group Name = n { ... }` after its label
    fn group(&mut self, used: &mut Vec<(i32, i32)>, names: &mut HashSet<String>) -> FInfo {
        self.id("group");
        let n = loop {
            let n = self.fresh(&["Grp", "Group", "Result", "G"]);
            if names.insert(lc(&n)) && self.claim(join(&self.scope, &n.to_lowercase())) {
                break n;
            }
        };
        self.id(&n);
        self.sym("=");
        let num = self.number(used, 1);
        self.g.int(num as u64);
        let full = join(&self.scope, &n.to_lowercase());
        if self.pct(self.cfg.opt) {
            self.bracket(2, &full, vec![]);
        }
        let ent = self.new_ent(&n, true);
        self.sym("{");
        self.body(ent, &[], &[], &n);
        self.sym("}");
        self.feat("group");
        FInfo { name: n.to_lowercase(), ty: FTy::Msg(ent), repeated: false, map: false, oneof: None, group: Some(n) }
    }

    // ------------------------------------------------------------------ extend
    fn extend(&mut self) {
        // of an option message
        if self.gvis.contains("google/protobuf/descriptor.proto") && self.pct(75) {
            let k = self.below(KINDS.len());
            self.id("extend");
            self.reference(&format!("google.protobuf.{}Options", KINDS[k]), usize::MAX, None, None, "extendee");
            self.sym("{");
            for _ in 0..self.g.t.range(1, 4) {
                self.extension(Some(k), None);
            }
            self.sym("}");
            self.feat("custom option");
            return;
        }
        if self.p3 {
            return;
        }
        if let Some(e) = self.pick_ent(true, &|e| !e.ranges.is_empty() && !e.p3) {
            self.id("extend");
            self.emit_ent(e, "extendee");
            self.sym("{");
            for _ in 0..self.g.t.range(1, 3) {
                if self.free_number(e).is_none() {
                    break;
                }
                self.extension(None, Some(e));
            }
            if self.g.toks.last().unwrap().s == "{" {
                // nothing to declare: an empty extend is not valid
                while self.g.toks.last().unwrap().s != "extend" {
                    self.g.toks.pop();
                }
                self.g.toks.pop();
                self.sites.pop();
                return;
            }
            self.sym("}");
            self.feat("extension");
        }
    }
    fn free_number(&self, e: usize) -> Option<i32> {
        self.ents[e].ranges.iter().flat_map(|(a, b)| *a..*b).find(|n| !self.ents[e].ext_used.contains(n))
    }
    fn extension(&mut self, kind: Option<usize>, extendee: Option<usize>) {
        let label = if self.p3 { *self.g.t.pick(&["", "repeated", "optional"]) } else { *self.g.t.pick(&["optional", "repeated"]) };
        if !label.is_empty() {
            self.id(label);
        }
        let p3 = self.p3;
        let mut group = None;
        let ty = if !self.p3 && self.pct(8) {
            self.id("group");
            let n = loop {
                let n = self.fresh(&["ExtGroup", "XG"]);
                if self.claim(join(&self.scope, &n.to_lowercase())) {
                    break n;
                }
            };
            group = Some(n);
            None
        } else if kind.is_some() && self.pct(40) {
            // messages for options: complete ones
            match self.pick_ent(true, &|e| e.done && !e.required) {
                Some(e) => {
                    self.emit_ent(e, "field type");
                    Some(FTy::Msg(e))
                }
                None => None,
            }
        } else if self.pct(70) {
            None
        } else {
            match self.pick_ent(false, &|e| !p3 || e.p3) {
                Some(e) => {
                    self.emit_ent(e, "field type");
                    Some(FTy::Enum(e))
                }
                None => None,
            }
        };
        let ty = match (ty, &group) {
            (Some(t), _) => t,
            (None, Some(_)) => FTy::Msg(0),
            (None, None) => {
                let (s, t) = *self.g.t.pick(SCALARS);
                self.id(s);
                FTy::Scalar(t)
            }
        };
        let name = match &group {
            Some(n) => n.to_lowercase(),
            None => self.fresh(&["opt", "my_option", "ext", "setting", "o"]),
        };
        match &group {
            Some(n) => {
                let n = n.clone();
                self.id(&n)
            }
            None => {
                let n = name.clone();
                self.id(&n)
            }
        }
        self.sym("=");
        let num = match extendee {
            None => {
                // unique over all files
                self.uniq += 1;
                50_000 + self.uniq as i32
            }
            Some(e) => {
                let n = self.free_number(e).unwrap();
                self.ents[e].ext_used.push(n);
                n
            }
        };
        self.g.int(num as u64);
        let full = join(&self.scope, &name);
        let mut ty = ty;
        let is_group = group.is_some();
        if let Some(n) = group {
            if self.pct(self.cfg.opt) {
                self.bracket(2, &full, vec![]);
            }
            let ent = self.new_ent(&n, true);
            self.sym("{");
            self.body(ent, &[], &[], &n);
            self.sym("}");
            ty = FTy::Msg(ent);
            if self.ents[ent].required {
                // not usable as an option
                self.feat("group extension");
                return;
            }
        } else {
            self.field_options(ty, label, false, &full);
            self.sym(";");
        }
        self.exts.push(Ext { full, file: self.cur, kind, extendee, ty, repeated: label == "repeated", group: is_group });
    }

    // ------------------------------------------------------------------ enum, service
    fn enumeration(&mut self, e: usize, name: &str) {
        self.id("enum");
        self.id(name);
        self.sym("{");
        let full = self.ents[e].full.clone();
        let values = self.ents[e].values.clone();
        let alias = values.len() > 1 && self.pct(15);
        let mut numbers: Vec<i32> = vec![];
        for k in 0..values.len() {
            let n = if k == 0 && self.ents[e].zero_first {
                0
            } else {
                match self.g.t.weighted(&[60, 10, 10, 5]) {
                    0 => k as i32 + 1,
                    1 => -(k as i32) - 1 - self.below(1000) as i32,
                    2 => 100 * (k as i32 + 1) + self.below(90) as i32,
                    _ => *self.g.t.pick(&[i32::MAX, i32::MIN]),
                }
            };
            let n = if numbers.contains(&n) { 10_000 + k as i32 } else { n };
            numbers.push(n);
        }
        if alias {
            let last = numbers.len() - 1;
            numbers[last] = numbers[0];
            self.feat("enum alias");
        }
        let at = self.below(values.len() + 1);
        let mut opts_done = false;
        let res = self.pct(8);
        for k in 0..=values.len() {
            if k == at && !opts_done {
                opts_done = true;
                if alias {
                    self.id("option");
                    self.id("allow_alias");
                    self.sym("=");
                    self.id("true");
                    self.sym(";");
                }
                if self.pct(self.cfg.opt) {
                    self.option_statements(4, &full);
                }
                if res {
                    self.id("reserved");
                    let lo = 1_000_000 + self.below(1000) as i64;
                    match self.below(3) {
                        0 => {
                            self.g.i32_tok(lo);
                        }
                        1 => {
                            self.g.i32_tok(-lo - 10);
                            self.id("to");
                            self.g.i32_tok(-lo);
                        }
                        _ => {
                            self.g.i32_tok(lo);
                            self.id("to");
                            self.g.i32_tok(lo + 5);
                        }
                    }
                    self.sym(";");
                    if self.pct(30) {
                        self.id("reserved");
                        self.plain_string("GONE");
                        self.sym(";");
                    }
                }
            }
            if k < values.len() {
                self.id(&values[k]);
                self.sym("=");
                self.g.i32_tok(numbers[k] as i64);
                if self.pct(self.cfg.opt) {
                    let outer = full.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default();
                    let sc = join(&outer, &values[k]);
                    self.bracket(5, &sc, vec![]);
                }
                self.sym(";");
            }
        }
        self.sym("}");
        self.ents[e].done = true;
    }
    fn service(&mut self) {
        if self.pick_ent(true, &|_| true).is_none() {
            return;
        }
        self.id("service");
        let n = self.fresh(&["Service", "Svc", "Api"]);
        self.id(&n);
        self.sym("{");
        let full = join(&self.scope, &n);
        if self.pct(self.cfg.opt) {
            self.option_statements(6, &full);
        }
        let outer = std::mem::replace(&mut self.scope, full.clone());
        for _ in 0..self.g.t.count(0, 4) {
            self.id("rpc");
            let m = self.fresh(&["Get", "List", "Call", "stream"]);
            self.id(&m);
            for k in 0..2 {
                if k == 1 {
                    self.id("returns");
                }
                self.sym("(");
                let stream = self.pct(30);
                if stream {
                    self.id("stream");
                }
                let e = self.pick_ent(true, &|_| true).unwrap();
                let at = self.g.toks.len();
                let inner = full.clone();
                let (f, file) = (self.ents[e].full.clone(), self.ents[e].file);
                self.reference(&f, file, Some(&inner), None, "method type");
                // `(stream` ... : a leading name `stream` would read as the keyword
                if self.g.toks[at].s == "stream" {
                    unreachable!();
                }
                self.sym(")");
            }
            if self.pct(self.cfg.opt * 2) {
                self.sym("{");
                let sc = join(&full, &m);
                self.option_statements(7, &sc);
                self.sym("}");
            } else if self.pct(20) {
                self.sym("{");
                self.sym("}");
            } else {
                self.sym(";");
            }
        }
        self.scope = outer;
        self.sym("}");
        self.feat("service");
    }

    // ------------------------------------------------------------------ options
    fn option_statements(&mut self, kind: usize, scope: &str) {
        for o in self.options(kind, scope) {
            self.id("option");
            self.g.toks.extend(o);
            self.sym(";");
        }
    }
    fn bracket(&mut self, kind: usize, scope: &str, pre: Vec<Vec<Tok>>) {
        let mut all = pre;
        all.extend(self.options(kind, scope));
        if all.is_empty() {
            return;
        }
        for k in (1..all.len()).rev() {
            // shuffle: options of repeated extensions are ordered, but so they are for protoc
            let m = self.below(k + 1);
            all.swap(k, k - m);
        }
        self.sym("[");
        for (k, o) in all.into_iter().enumerate() {
            if k > 0 {
                self.sym(",");
            }
            self.g.toks.extend(o);
        }
        self.sym("]");
    }
    /// option assignments without `option` and `;`
    fn options(&mut self, kind: usize, scope: &str) -> Vec<Vec<Tok>> {
        let mut out = vec![];
        let base = self.g.toks.len();
        let mut stds: Vec<&(&str, &str)> = STD[kind].iter().collect();
        for _ in 0..self.g.t.count(0, 3) {
            if stds.is_empty() {
                break;
            }
            let k = self.below(stds.len());
            let (n, v) = *stds.remove(k);
            self.id(n);
            self.sym("=");
            match v.split_at(1) {
                ("s", _) => self.string(),
                ("b", _) => {
                    let b = if self.pct(50) { "true" } else { "false" };
                    self.id(b)
                }
                (_, e) => {
                    let c: Vec<&str> = e.split('|').collect();
                    let v = *self.g.t.pick(&c);
                    self.id(v)
                }
            }
            out.push(self.g.toks.split_off(base));
            self.feat("standard option");
        }
        let mut used: HashSet<String> = HashSet::new();
        for _ in 0..self.g.t.count(0, 4) {
            let v: Vec<usize> = (0..self.exts.len())
                .filter(|i| {
                    let x = &self.exts[*i];
                    x.kind == Some(kind) && self.vis.contains(&x.file) && (x.repeated || !used.contains(&x.full))
                })
                .collect();
            if v.is_empty() {
                break;
            }
            let x = self.exts[*self.g.t.pick(&v)].clone();
            used.insert(x.full.clone());
            let mark = self.sites.len();
            self.sym("(");
            // looked up from the scope that contains the element
            let from = scope.rsplit_once('.').map_or("", |x| x.0).to_string();
            self.reference(&x.full, x.file, Some(&from), Some(scope), "option name");
            self.sym(")");
            self.feat("custom option use");
            let mut ty = x.ty;
            let mut rep = x.repeated;
            // descend into a message by path
            let mut depth = 0;
            while let FTy::Msg(e) = ty {
                if rep || depth > 3 || !self.pct(40) {
                    break;
                }
                let fs: Vec<FInfo> = self.ents[e].fields.iter().filter(|f| !f.map && f.ty != FTy::Msg(usize::MAX) && self.usable(f.ty)).cloned().collect();
                if fs.is_empty() {
                    break;
                }
                let f = self.g.t.pick(&fs).clone();
                self.sym(".");
                self.id(&f.name);
                ty = f.ty;
                rep = f.repeated;
                depth += 1;
                self.feat("option path");
            }
            self.sym("=");
            self.value(ty, false, 0);
            let toks = self.g.toks.split_off(base);
            // token positions of references inside move; they are not mutated
            self.sites.truncate(mark);
            out.push(toks);
        }
        out
    }
    fn usable(&self, ty: FTy) -> bool {
        match ty {
            FTy::Msg(e) => e != usize::MAX && self.ents[e].done && !self.ents[e].required,
            _ => true,
        }
    }
    fn value(&mut self, ty: FTy, agg: bool, depth: usize) {
        match ty {
            FTy::Enum(e) => {
                let v = self.g.t.pick(&self.ents[e].values).clone();
                self.id(&v);
            }
            FTy::Msg(e) => {
                self.sym("{");
                self.aggregate(e, depth);
                self.sym("}");
                self.feat("aggregate option");
            }
            FTy::Scalar(Type::Bytes) => {
                let b = self.g.bytes_value(false);
                self.g.string(&b);
            }
            FTy::Scalar(Type::Double | Type::Float) => match self.g.t.weighted(if agg { &[40, 20, 8, 4] } else { &[40, 20] }) {
                0 => {
                    if self.pct(30) {
                        self.sym("-");
                    }
                    let v = format!("{}.{}", self.below(1000), self.below(1000));
                    self.g.tok(TK::Float, &v);
                }
                1 => {
                    if self.pct(30) {
                        self.sym("-");
                    }
                    let v = self.below(100000).to_string();
                    self.g.tok(TK::Int, &v);
                }
                2 => {
                    if agg && self.pct(50) {
                        self.sym("-");
                    }
                    self.id("inf")
                }
                _ => self.id("nan"),
            },
            FTy::Scalar(Type::String) => {
                let b = self.g.bytes_value(true);
                self.g.string(&b);
            }
            FTy::Scalar(Type::Bool) => {
                let b = if self.pct(50) { "true" } else { "false" };
                self.id(b)
            }
            FTy::Scalar(t) => {
                let (lo, hi) = gen::int_range(t);
                let v = match self.below(4) {
                    0 => self.below(100) as i128,
                    1 => lo,
                    2 => hi,
                    _ => lo + (self.g.t.u64() as i128).rem_euclid(hi - lo + 1),
                };
                self.g.sint(v < 0, v.unsigned_abs() as u64);
            }
        }
    }
    fn aggregate(&mut self, e: usize, depth: usize) {
        if e == usize::MAX {
            return;
        }
        let fields = self.ents[e].fields.clone();
        let mut seen: HashSet<String> = HashSet::new();
        let mut oneofs: HashSet<usize> = HashSet::new();
        for _ in 0..self.g.t.count(0, 4) {
            if fields.is_empty() {
                break;
            }
            let f = self.g.t.pick(&fields).clone();
            if f.map || !self.usable(f.ty) || (depth > 3 && matches!(f.ty, FTy::Msg(_))) {
                continue;
            }
            if !f.repeated && !seen.insert(f.name.clone()) {
                continue;
            }
            if f.oneof.is_some_and(|o| !oneofs.insert(o)) {
                continue;
            }
            let n = f.group.clone().unwrap_or(f.name.clone());
            self.id(&n);
            let msg = matches!(f.ty, FTy::Msg(_));
            if !msg || self.pct(40) {
                self.sym(":");
            }
            if f.repeated && self.g.toks.last().unwrap().s == ":" && self.pct(40) {
                self.sym("[");
                for k in 0..self.g.t.range(1, 3) {
                    if k > 0 {
                        self.sym(",");
                    }
                    self.value(f.ty, true, depth + 1);
                }
                self.sym("]");
                self.feat("list value");
            } else {
                self.value(f.ty, true, depth + 1);
            }
            match self.below(4) {
                0 => self.sym(","),
                1 => self.sym(";"),
                _ => {}
            }
        }
        // extensions of the message
        let xs: Vec<Ext> = self.exts.iter().filter(|x| x.extendee == Some(e) && self.vis.contains(&x.file) && self.usable(x.ty)).cloned().collect();
        if !xs.is_empty() && self.pct(40) {
            let x = self.g.t.pick(&xs).clone();
            // protoc looks the name up from the message's scope
            let from = self.ents[e].full.rsplit_once('.').map_or("", |x| x.0).to_string();
            let comps: Vec<&str> = x.full.split('.').collect();
            if !self.fits(&comps, comps.len(), &from) {
                return;
            }
            self.forbid(comps[0], &from, "");
            self.sym("[");
            self.dotted(&x.full);
            self.sym("]");
            self.sym(":");
            self.value(x.ty, true, depth + 1);
            self.feat("extension in aggregate");
        }
    }
}
