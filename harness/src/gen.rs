//! Constructive generator: draws a proto file from the tape and produces, in one pass, its token
//! sequence, the descriptor it must yield, the source locations it must yield (as token ranges),
//! and, when asked for, deliberate violations of file-local rules with the errors they must yield.
use crate::engine::Tape;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    descriptor_proto, enum_descriptor_proto, uninterpreted_option, DescriptorProto, EnumDescriptorProto, EnumOptions,
    EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto, FieldOptions,
    FileDescriptorProto, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto,
    OneofOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TK {
    Ident,
    Int,
    Float,
    Str,
    Sym,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub k: TK,
    pub s: String,
    /// inside an aggregate value
    pub agg: bool,
}
#[derive(Clone, Debug)]
pub struct LocExp {
    pub path: Vec<i32>,
    pub a: usize,
    pub b: usize,
    /// Some((first token, end-of-declaration token)) when this location carries comments
    pub com: Option<(usize, usize)>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub a: usize,
    pub b: usize,
    pub msg: &'static str,
    /// no primary span (second package)
    pub two: Option<(usize, usize)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VStage {
    None,
    Parse,
    Gen,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: usize,
    pub decls: usize,
    pub opt: u32,
    pub ranges: u32,
    pub empties: u32,
    pub lit: u32,
    pub agg: u32,
    pub defaults: u32,
    /// percentage of desugared field kinds (map, group, oneof, optional)
    pub sugar: u32,
    pub kw: u32,
    pub viol: VStage,
    pub viol_pct: u32,
    pub max_viol: usize,
    pub syntax: Option<bool>,
    pub reserved_underscore: bool,
    pub ext_single_opts: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            depth: 3,
            decls: 5,
            opt: 12,
            ranges: 8,
            empties: 4,
            lit: 20,
            agg: 25,
            defaults: 12,
            sugar: 30,
            kw: 12,
            viol: VStage::None,
            viol_pct: 0,
            max_viol: 4,
            syntax: None,
            reserved_underscore: true,
            ext_single_opts: true,
        }
    }
}

pub const MAXF: i32 = 536_870_911;

pub const SCALARS: &[(&str, Type)] = &[
    ("int32", Type::Int32),
    ("string", Type::String),
    ("bool", Type::Bool),
    ("bytes", Type::Bytes),
    ("int64", Type::Int64),
    ("uint32", Type::Uint32),
    ("uint64", Type::Uint64),
    ("sint32", Type::Sint32),
    ("sint64", Type::Sint64),
    ("fixed32", Type::Fixed32),
    ("fixed64", Type::Fixed64),
    ("sfixed32", Type::Sfixed32),
    ("sfixed64", Type::Sfixed64),
    ("double", Type::Double),
    ("float", Type::Float),
];
pub const KEYWORDS: &[&str] = &[
    "message", "enum", "service", "rpc", "option", "optional", "required", "repeated", "extend", "extensions",
    "reserved", "oneof", "map", "group", "package", "import", "syntax", "stream", "returns", "to", "max", "public",
    "weak", "inf", "nan", "true", "false", "default", "json_name", "edition",
    "int32", "string", "bool", "bytes", "double", "float", "uint64",
];
const NAMES: &[&str] = &[
    "a", "foo", "Bar", "foo_bar", "FooBar", "x1", "_x", "__", "A", "key", "value", "FOO_BAR", "fooBar9", "b2c_3d_",
    "_1", "E", "very_long_identifier_name_with_many_parts", "e", "f", "x0", "Z", "éa",
];

/// a number around where something might overflow
pub fn big(t: &mut Tape) -> usize {
    *t.pick(&[8, 9, 16, 17, 20, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
}

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub toks: Vec<Tok>,
    pub locs: Vec<LocExp>,
    pub viols: Vec<Viol>,
    pub p3: bool,
    pub cfg: Cfg,
    pub path: Vec<i32>,
    pub in_agg: bool,
    pub feats: std::collections::BTreeSet<&'static str>,
    /// (first token, last token) of empty statements
    pub empties: Vec<usize>,
    budget: usize,
    recent: Vec<String>,
    /// number of repetitions to draw until one is drawn much larger than usual
    burst: usize,
    /// levels of nesting to force
    chain: usize,
    level: usize,
    /// percentage of nested aggregates written with `<` and `>`
    angle: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Message,
    Oneof,
    Extend,
}

pub struct Generated {
    pub toks: Vec<Tok>,
    pub locs: Vec<LocExp>,
    pub viols: Vec<Viol>,
    pub file: FileDescriptorProto,
    pub feats: std::collections::BTreeSet<&'static str>,
    pub empties: Vec<usize>,
}

impl Generated {
    pub fn label(&self, c: &mut crate::engine::Case) {
        for f in &self.feats {
            c.label(f);
        }
    }
}

pub fn generate(t: &mut Tape, cfg: Cfg, name: &str) -> Generated {
    let mut g = G::new(t, cfg);
    g.scale();
    let file = g.file(name);
    Generated { toks: g.toks, locs: g.locs, viols: g.viols, file, feats: g.feats, empties: g.empties }
}

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape, cfg: Cfg) -> G<'t> {
        G {
            t,
            toks: vec![],
            locs: vec![],
            viols: vec![],
            p3: false,
            cfg,
            path: vec![],
            in_agg: false,
            feats: Default::default(),
            empties: vec![],
            budget: 220,
            recent: vec![],
            burst: 0,
            chain: 0,
            level: 0,
            angle: 30,
        }
    }
    /// Now and then a file has one list, literal or name much longer than usual, or deep nesting.
    pub fn scale(&mut self) {
        if self.t.pct(3) {
            let n = *self.t.pick(&[8, 30, 100]);
            self.burst = 1 + self.t.below(n);
        } else if self.t.pct(1) {
            self.chain = big(self.t).min(45);
        }
    }
    fn cnt(&mut self, lo: usize, hi: usize) -> usize {
        if self.burst > 0 && hi > lo {
            self.burst -= 1;
            if self.burst == 0 {
                let n = big(self.t);
                self.budget += 2 * n;
                self.feats.insert("large count");
                return lo + n;
            }
        }
        self.t.count(lo, hi)
    }

    // ---------------------------------------------------------------- tokens
    pub fn tok(&mut self, k: TK, s: &str) -> usize {
        self.toks.push(Tok { k, s: s.to_string(), agg: self.in_agg });
        self.toks.len() - 1
    }
    pub fn id(&mut self, s: &str) -> usize {
        self.tok(TK::Ident, s)
    }
    pub fn sym(&mut self, s: &str) -> usize {
        self.tok(TK::Sym, s)
    }
    pub fn loc(&mut self, path: &[i32], a: usize, b: usize) {
        let mut p = self.path.clone();
        p.extend_from_slice(path);
        self.locs.push(LocExp { path: p, a, b, com: None });
    }
    pub fn locc(&mut self, path: &[i32], a: usize, b: usize, end: usize) {
        let mut p = self.path.clone();
        p.extend_from_slice(path);
        self.locs.push(LocExp { path: p, a, b, com: Some((a, end)) });
    }
    fn last(&self) -> usize {
        self.toks.len() - 1
    }
    fn feat(&mut self, f: &'static str) {
        self.feats.insert(f);
    }
    fn viol(&mut self, stage: VStage) -> bool {
        self.cfg.viol == stage && self.viols.len() < self.cfg.max_viol && self.t.pct(self.cfg.viol_pct)
    }
    fn add_viol(&mut self, class: &'static str, a: usize, b: usize, msg: &'static str) {
        self.viols.push(Viol { class, a, b, msg, two: None });
    }

    // ---------------------------------------------------------------- identifiers
    pub fn name(&mut self) -> String {
        match self.t.weighted(&[60, self.cfg.kw, 15]) {
            0 => {
                let s = self.t.pick(&NAMES[..NAMES.len() - 1]);
                s.to_string()
            }
            1 => {
                self.feats.insert("keyword-name");
                self.t.pick(KEYWORDS).to_string()
            }
            _ => {
                let n = 1 + self.cnt(0, 7);
                let mut s = String::new();
                for i in 0..n {
                    let cs: &[u8] = if i == 0 {
                        b"abcxyzABCXYZ_"
                    } else {
                        b"abcxyzABCXYZ_0189"
                    };
                    s.push(*self.t.pick(cs) as char);
                }
                s
            }
        }
    }
    /// a name for a field or oneof, sometimes close to the (synthetic oneof) name of an earlier one
    fn member_name(&mut self) -> String {
        let n = if !self.recent.is_empty() && self.t.pct(12) {
            let k = self.t.below(self.recent.len());
            let r = self.recent[k].clone();
            match self.t.below(5) {
                0 | 1 => format!("_{r}"),
                2 => format!("X{r}"),
                3 => format!("X_{r}"),
                _ => match r.trim_start_matches(['X', '_']) {
                    t if t.is_empty() || t.starts_with(|c: char| c.is_ascii_digit()) => r,
                    t => t.to_string(),
                },
            }
        } else {
            self.name()
        };
        if self.recent.len() >= 5 {
            self.recent.remove(0);
        }
        self.recent.push(n.clone());
        n
    }
    fn dotted(&mut self, first: String, max: usize) -> String {
        let n = self.cnt(0, max);
        self.id(&first);
        let mut s = first;
        for _ in 0..n {
            self.sym(".");
            let p = self.name();
            self.id(&p);
            s.push('.');
            s.push_str(&p);
        }
        s
    }
    /// a type name; `bad` tells which first components are not allowed without a leading dot
    fn type_name(&mut self, bad: impl Fn(&str) -> bool) -> (String, usize, usize) {
        let a = self.toks.len();
        let lead = self.t.pct(25);
        let mut first = self.name();
        if !lead && bad(&first) {
            first = "T".into();
        }
        let mut s = String::new();
        if lead {
            self.sym(".");
            s.push('.');
        }
        // `map` alone is a type name, `map.x` is not (as in protoc)
        let max = if !lead && first == "map" { 0 } else { 3 };
        let r = self.dotted(first, max);
        s.push_str(&r);
        (s, a, self.last())
    }

    // ---------------------------------------------------------------- literals
    pub fn int_text(&mut self, v: u64) -> String {
        if !self.t.pct(self.cfg.lit) {
            return v.to_string();
        }
        match self.t.below(3) {
            0 => v.to_string(),
            1 => {
                let z = "0".repeat(self.cnt(0, 6));
                let x = if self.t.pct(50) { "X" } else { "x" };
                let d = format!("{v:x}");
                let d: String = d
                    .chars()
                    .map(|c| if self.t.pct(40) { c.to_ascii_uppercase() } else { c })
                    .collect();
                self.feats.insert("hex-int");
                format!("0{x}{z}{d}")
            }
            _ => {
                let z = "0".repeat(1 + self.cnt(0, 6));
                self.feats.insert("oct-int");
                format!("{z}{v:o}")
            }
        }
    }
    pub fn int(&mut self, v: u64) -> usize {
        let s = self.int_text(v);
        self.tok(TK::Int, &s)
    }
    /// (first, last)
    pub fn sint(&mut self, neg: bool, v: u64) -> (usize, usize) {
        let a = self.toks.len();
        if neg {
            self.sym("-");
        }
        let b = self.int(v);
        (a, b)
    }
    pub fn i32_tok(&mut self, v: i64) -> (usize, usize) {
        let neg = v < 0 || (v == 0 && self.t.pct(3));
        self.sint(neg, v.unsigned_abs())
    }
    /// literal text and the value it denotes
    pub fn float_text(&mut self) -> (String, f64) {
        let digits = |t: &mut Tape, lo: usize, hi: usize| -> String {
            let n = if hi > 27 { hi } else { t.count(lo, hi) };
            (0..n).map(|_| *t.pick(b"0123456789") as char).collect()
        };
        let hi = if self.t.pct(self.cfg.lit) { 2 + self.cnt(0, 23) } else { 3 };
        let form = self.t.below(4);
        let (ip, fp, dot) = match form {
            0 => (digits(self.t, 1, hi), digits(self.t, 1, hi), true),
            1 => (digits(self.t, 1, hi), String::new(), true),
            2 => (String::new(), digits(self.t, 1, hi), true),
            _ => (digits(self.t, 1, hi), String::new(), false),
        };
        let exp = if !dot || self.t.pct(35) {
            let sign = *self.t.pick(&["", "+", "-"]);
            let e = match self.t.weighted(&[6, 3, 1]) {
                0 => self.t.below(20),
                1 => self.t.below(310),
                _ => self.t.below(400),
            };
            let pad = if self.t.pct(10) { "0" } else { "" };
            Some((sign, format!("{pad}{e}")))
        } else {
            None
        };
        let mut s = ip.clone();
        if dot {
            s.push('.');
        }
        s.push_str(&fp);
        let mut canon = format!("0{ip}.{fp}0");
        if let Some((sg, e)) = &exp {
            s.push(if self.t.pct(30) { 'E' } else { 'e' });
            s.push_str(sg);
            s.push_str(e);
            canon.push_str(&format!("e{sg}{e}"));
        }
        let v: f64 = canon.parse().unwrap();
        (s, v)
    }
    pub fn float(&mut self) -> (usize, f64) {
        self.feats.insert("float-literal");
        let (mut s, v) = self.float_text();
        if self.in_agg && self.t.pct(20) {
            s.push(if self.t.pct(50) { 'f' } else { 'F' });
            self.feats.insert("f-suffix");
        }
        (self.tok(TK::Float, &s), v)
    }
    pub fn bytes_value(&mut self, utf8: bool) -> Vec<u8> {
        let n = if self.t.pct(self.cfg.lit) { self.cnt(0, 24) } else { self.cnt(0, 6) };
        let mut out = Vec::new();
        for _ in 0..n {
            match self.t.weighted(&[50, 12, 12, 10, 6, 10]) {
                0 => out.push(*self.t.pick(b"abcXYZ019 _./-")),
                1 => out.push(*self.t.pick(b"\"'\\?{}[]<>#;/*")),
                2 => out.push(*self.t.pick(b"\n\r\t\0\x07\x08\x0b\x0c\x1b\x7f")),
                3 => {
                    let c = match self.t.below(4) {
                        0 => *self.t.pick(&['é', 'ß', '中', '\u{7ff}', '\u{ffff}', '😀', '\u{10ffff}', '\u{80}', '\u{feff}']),
                        1 => {
                            // near the ends of a plane
                            let v = (self.t.below(17) as u32) << 16 | self.t.pick(&[0, 1, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x7ff, 0x800, 0xff, 0x100]);
                            char::from_u32(v).unwrap()
                        }
                        2 => char::from_u32(self.t.below(0xd800) as u32).unwrap(),
                        _ => char::from_u32(0xe000 + self.t.below(0x110000 - 0xe000) as u32).unwrap(),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
                4 => out.push((32 + self.t.below(95)) as u8),
                _ => {
                    if utf8 {
                        out.push(self.t.below(128) as u8)
                    } else {
                        out.push(self.t.below(256) as u8)
                    }
                }
            }
        }
        out
    }
    /// emits one or more adjacent string literals denoting `v`; returns (first, last)
    pub fn string(&mut self, v: &[u8]) -> (usize, usize) {
        let a = self.toks.len();
        let mut pieces = vec![];
        let mut rest = v;
        while self.t.pct(12) {
            let k = self.t.below(rest.len() + 1);
            let (x, y) = rest.split_at(k);
            pieces.push(x);
            rest = y;
            self.feats.insert("string-concat");
        }
        pieces.push(rest);
        for p in pieces {
            let s = self.string_text(p);
            self.tok(TK::Str, &s);
        }
        (a, self.last())
    }
    pub fn string_text(&mut self, v: &[u8]) -> String {
        let q = if self.t.pct(35) { '\'' } else { '"' };
        let rich = self.t.pct(self.cfg.lit);
        let mut s = String::new();
        s.push(q);
        let mut i = 0;
        // Some(k): previous piece was a numeric escape whose next raw char must not be a digit of that kind
        let mut avoid_hex = false;
        let mut avoid_oct = false;
        while i < v.len() {
            // decode one char if valid utf-8 here
            let ch = std::str::from_utf8(&v[i..])
                .map(|s| s.chars().next())
                .unwrap_or_else(|e| std::str::from_utf8(&v[i..i + e.valid_up_to()]).unwrap().chars().next());
            let b = v[i];
            let raw_ok = |c: char| -> bool {
                c != q && c != '\\' && c != '\n' && c != '\0' && !(c.is_ascii_hexdigit() && avoid_hex) && !(c.is_digit(8) && avoid_oct)
            };
            let style = if rich || self.t.pct(5) { self.t.below(6) } else { 0 };
            let mut done = 0;
            match (style, ch) {
                (0, Some(c)) if raw_ok(c) => {
                    s.push(c);
                    done = c.len_utf8();
                    avoid_hex = false;
                    avoid_oct = false;
                }
                (1, Some(c)) => {
                    if (c as u32) < 0x10000 && self.t.pct(60) {
                        s.push_str(&format!("\\u{:04x}", c as u32));
                    } else {
                        s.push_str(&format!("\\U{:08X}", c as u32));
                    }
                    done = c.len_utf8();
                    avoid_hex = false;
                    avoid_oct = false;
                    self.feats.insert("unicode-escape");
                }
                _ => {}
            }
            if done == 0 {
                let simple = match b {
                    7 => Some('a'),
                    8 => Some('b'),
                    12 => Some('f'),
                    b'\n' => Some('n'),
                    b'\r' => Some('r'),
                    b'\t' => Some('t'),
                    11 => Some('v'),
                    b'?' => Some('?'),
                    b'\\' => Some('\\'),
                    b'\'' => Some('\''),
                    b'"' => Some('"'),
                    _ => None,
                };
                done = 1;
                avoid_hex = false;
                avoid_oct = false;
                match (style, simple) {
                    (0 | 1 | 2, Some(c)) => {
                        s.push('\\');
                        s.push(c);
                    }
                    (3, _) => {
                        let x = if self.t.pct(50) { 'X' } else { 'x' };
                        let short = b < 16 && self.t.pct(50);
                        if short {
                            s.push_str(&format!("\\{x}{b:x}"));
                            avoid_hex = true;
                        } else if self.t.pct(50) {
                            s.push_str(&format!("\\{x}{b:02x}"));
                        } else {
                            s.push_str(&format!("\\{x}{b:02X}"));
                        }
                        self.feats.insert("hex-escape");
                    }
                    _ => {
                        self.feats.insert("oct-escape");
                        if b < 64 && self.t.pct(50) {
                            s.push_str(&format!("\\{b:o}"));
                            avoid_oct = true;
                        } else {
                            s.push_str(&format!("\\{b:03o}"));
                        }
                    }
                }
            }
            i += done;
        }
        s.push(q);
        s
    }

    // ---------------------------------------------------------------- options
    fn ext_name(&mut self) -> String {
        self.sym("(");
        let (n, _, _) = self.type_name(|_| false);
        self.sym(")");
        n
    }
    /// name = value; returns the option and the (first,last) tokens of the value.
    fn option_body(&mut self) -> (UninterpretedOption, usize, usize) {
        let a = self.toks.len();
        let n = 1 + self.cnt(0, 3);
        let mut name = vec![];
        for i in 0..n {
            if i > 0 {
                self.sym(".");
            }
            if self.t.pct(40) {
                let np = self.ext_name();
                name.push(uninterpreted_option::NamePart { name_part: np, is_extension: true });
            } else {
                let mut p = self.name();
                if n == 1 && (p == "default" || p == "json_name" || p == "message_set_wire_format") {
                    p = "deprecated".into();
                }
                self.id(&p);
                name.push(uninterpreted_option::NamePart { name_part: p, is_extension: false });
            }
        }
        if n > 1 {
            self.feat("multi-part-option-name");
        }
        self.sym("=");
        let o = UninterpretedOption { name, ..Default::default() };
        let o = self.option_value(o);
        (o, a, self.last())
    }
    fn option_value(&mut self, mut o: UninterpretedOption) -> UninterpretedOption {
        let va = self.toks.len();
        if self.viol(VStage::Gen) {
            if self.t.pct(50) {
                self.sym("-");
                let n = self.t.pick(&["inf", "nan", "foo", "max", "true"]).to_string();
                self.id(&n);
                let b = self.last();
                self.add_viol("negative-ident", va, b, "negative");
            } else {
                let v = match self.t.below(3) {
                    0 => i64::MAX as u64 + 2,
                    1 => u64::MAX,
                    _ => (i64::MAX as u64 + 2) | self.t.u64(),
                };
                let (x, y) = self.sint(true, v);
                self.add_viol("option-int-too-small", x, y, "out of range");
            }
            return o;
        }
        match self.t.weighted(&[20, 14, 12, 12, 20, self.cfg.agg]) {
            0 => {
                let n = self.name();
                self.id(&n);
                o.identifier_value = Some(n);
            }
            1 => {
                let v = self.u64_value();
                self.int(v);
                o.positive_int_value = Some(v);
            }
            2 => {
                let v = match self.t.below(6) {
                    0 => 1,
                    1 => i64::MAX as u64 + 1,
                    2 => i64::MAX as u64,
                    3 => 0,
                    4 => self.t.u64() >> (1 + self.t.below(63)),
                    _ => 1 << self.t.below(64),
                };
                let v = v.min(i64::MAX as u64 + 1);
                self.sint(true, v);
                o.negative_int_value = Some((-(v as i128)) as i64);
            }
            3 => {
                let neg = self.t.pct(40);
                if neg {
                    self.sym("-");
                }
                let (_, v) = self.float();
                o.double_value = Some(if neg { -v } else { v });
            }
            4 => {
                let v = self.bytes_value(false);
                self.string(&v);
                o.string_value = Some(v);
            }
            _ => {
                self.feat("aggregate");
                self.sym("{");
                let was = self.in_agg;
                self.in_agg = true;
                let mut out = vec![];
                let d = if self.t.pct(2) {
                    self.feat("deep aggregate");
                    self.angle = *self.t.pick(&[30, 0, 100]);
                    4 + big(self.t)
                } else {
                    self.t.below(4)
                };
                self.agg_body(&mut out, d);
                self.angle = 30;
                self.sym("}");
                self.in_agg = was;
                o.aggregate_value = Some(crate::textfmt::canon_tokens(&out));
            }
        }
        o
    }
    /// numbers near powers, and equal to small or extreme ones modulo a power of two
    pub fn edge(&mut self) -> u64 {
        match self.t.below(5) {
            0 => (1u64 << self.t.below(64)).wrapping_add(self.t.below(5) as u64).wrapping_sub(2),
            1 => ((1 + self.t.below(8) as u64) << 32).wrapping_add(*self.t.pick(&[0, 1, 2, 5, 100, 1 << 31, (1 << 31) + 1, (1 << 31) - 1, (1 << 29) - 1, 1 << 29, u32::MAX as u64, (1 << 32) - 5])),
            2 => 10u64.pow(self.t.below(20) as u32).wrapping_add(self.t.below(3) as u64).wrapping_sub(1),
            3 => (self.t.u64() << 32) | self.t.below(20) as u64,
            _ => self.t.u64() >> self.t.below(64),
        }
    }
    pub fn u64_value(&mut self) -> u64 {
        match self.t.below(9) {
            8 => self.edge(),
            0 => 0,
            1 => 1,
            2 => self.t.below(1000) as u64,
            3 => u64::MAX,
            4 => i64::MAX as u64 + self.t.below(3) as u64,
            5 => self.t.u64() >> self.t.below(64),
            6 => u32::MAX as u64 + self.t.below(3) as u64,
            _ => (1u64 << self.t.below(64)).wrapping_sub(self.t.below(2) as u64),
        }
    }
    fn agg_sym(&mut self, out: &mut Vec<crate::textfmt::TF>, s: &str) {
        self.sym(s);
        out.push(crate::textfmt::TF::Sym(s.chars().next().unwrap()));
    }
    fn agg_id(&mut self, out: &mut Vec<crate::textfmt::TF>, s: &str) {
        self.id(s);
        out.push(crate::textfmt::TF::Ident(s.to_string()));
    }
    fn agg_body(&mut self, out: &mut Vec<crate::textfmt::TF>, depth: usize) {
        use crate::textfmt::TF;
        // (more than four levels: one message in each of them)
        let n = if depth > 4 { 1 } else { self.cnt(0, 4) };
        for _ in 0..n {
            // field name
            if self.t.pct(25) {
                self.agg_sym(out, "[");
                let k = 1 + self.cnt(0, 3);
                for i in 0..k {
                    if i > 0 {
                        self.agg_sym(out, ".");
                    }
                    let s = self.name();
                    self.agg_id(out, &s);
                }
                if self.t.pct(40) {
                    self.agg_sym(out, "/");
                    let s = self.name();
                    self.agg_id(out, &s);
                    self.feat("any-url");
                }
                self.agg_sym(out, "]");
            } else {
                let s = self.name();
                self.agg_id(out, &s);
            }
            // value
            let msg = depth > 4 || depth > 0 && self.t.pct(35);
            if msg {
                if self.t.pct(40) {
                    self.agg_sym(out, ":");
                }
                let angle = self.t.pct(self.angle);
                self.agg_sym(out, if angle { "<" } else { "{" });
                self.agg_body(out, depth - 1);
                self.agg_sym(out, if angle { ">" } else { "}" });
                self.feat("nested-aggregate");
            } else {
                self.agg_sym(out, ":");
                if self.t.pct(20) {
                    self.agg_sym(out, "[");
                    let k = self.cnt(0, 3);
                    for i in 0..k {
                        if i > 0 {
                            self.agg_sym(out, ",");
                        }
                        self.agg_scalar(out);
                    }
                    self.agg_sym(out, "]");
                } else {
                    self.agg_scalar(out);
                }
            }
            match self.t.below(4) {
                1 => self.agg_sym(out, ";"),
                2 => self.agg_sym(out, ","),
                _ => {}
            }
        }
        let _ = TF::Sym;
    }
    fn agg_scalar(&mut self, out: &mut Vec<crate::textfmt::TF>) {
        use crate::textfmt::TF;
        if self.t.pct(20) {
            self.agg_sym(out, "-");
        }
        match self.t.below(4) {
            0 => {
                let s = self.name();
                self.agg_id(out, &s);
            }
            1 => {
                let v = self.u64_value();
                self.int(v);
                out.push(TF::Int(v));
            }
            2 => {
                let (_, v) = self.float();
                out.push(TF::float(v));
            }
            _ => {
                let k = 1 + self.cnt(0, 2);
                for _ in 0..k {
                    let v = self.bytes_value(false);
                    let s = self.string_text(&v);
                    self.tok(TK::Str, &s);
                    out.push(TF::Str(v));
                }
            }
        }
    }
    /// An `option ...;` statement for the element whose options live at `tag` under the current path.
    fn option_stmt(&mut self, tag: i32, opts: &mut Vec<UninterpretedOption>) {
        let a = self.id("option");
        let (o, _, _) = self.option_body();
        let b = self.sym(";");
        self.loc(&[tag], a, b);
        let j = opts.len() as i32;
        self.locc(&[tag, 999, j], a, b, b);
        opts.push(o);
        self.feat("option-statement");
    }
    /// `[...]` list; extras are pre-made entries (default / json_name) emitted by `special`.
    /// Returns None when no list was written.
    fn option_list(
        &mut self,
        tag: i32,
        special: &mut Vec<Special>,
    ) -> Option<Vec<UninterpretedOption>> {
        let want = self.t.pct(self.cfg.opt);
        if !want && special.is_empty() {
            return None;
        }
        let n = if want { 1 + self.cnt(0, 4) } else { 0 };
        let total = n + special.len();
        let a = self.sym("[");
        let mut opts = vec![];
        let mut entries = vec![];
        let mut left_n = n;
        for i in 0..total {
            if i > 0 {
                self.sym(",");
            }
            let take_special = !special.is_empty() && (left_n == 0 || self.t.pct(50));
            if take_special {
                let sp = special.remove(0);
                self.emit_special(sp);
            } else {
                left_n -= 1;
                let (o, x, y) = self.option_body();
                entries.push((opts.len() as i32, x, y));
                opts.push(o);
            }
        }
        let b = self.sym("]");
        self.loc(&[tag], a, b);
        for (j, x, y) in entries {
            self.loc(&[tag, 999, j], x, y);
        }
        if opts.len() > 1 {
            self.feat("option-list>1");
        }
        Some(opts)
    }
    fn emit_special(&mut self, sp: Special) {
        let a = self.toks.len();
        self.id(if sp.json { "json_name" } else { "default" });
        self.sym("=");
        let va = self.toks.len();
        for t in &sp.toks {
            self.toks.push(t.clone());
        }
        let b = self.last();
        if sp.json {
            self.loc(&[10], a, b);
            self.loc(&[10], va, b);
        } else {
            self.loc(&[7], va, b);
        }
        if let Some((class, msg, whole)) = sp.viol {
            self.add_viol(class, if whole { a } else { va }, b, msg);
        }
    }

    // ---------------------------------------------------------------- numbers & ranges
    fn field_number(&mut self) -> (Option<i32>, usize, usize) {
        if self.viol(VStage::Gen) {
            let (neg, v) = match self.t.below(9) {
                7 => (false, self.edge()),
                8 => (true, self.edge()),
                0 => (false, 0),
                1 => (false, MAXF as u64 + 1),
                2 => (true, 1),
                3 => (false, 1 << 31),
                4 => (false, u64::MAX),
                5 => (true, self.t.u64()),
                _ => (false, (MAXF as u64 + 1).max(self.t.u64())),
            };
            let v = if !neg && v >= 1 && v <= MAXF as u64 { v | 1 << 29 } else { v };
            let neg = neg && v != 0;
            let (a, b) = self.sint(neg, v);
            self.add_viol("field-number", a, b, "message numbers");
            return (None, a, b);
        }
        let v = match self.t.weighted(&[80, 10, 5, 5]) {
            0 => 1 + self.t.below(50) as i32,
            1 => 1 + self.t.below(MAXF as usize) as i32,
            2 => MAXF - self.t.below(3) as i32,
            _ => 19000 + self.t.below(1000) as i32,
        };
        let a = self.int(v as u64);
        (Some(v), a, a)
    }
    fn enum_number(&mut self) -> (Option<i32>, usize, usize) {
        if self.viol(VStage::Gen) {
            let (neg, v) = match self.t.below(6) {
                4 => (false, self.edge().max(1 << 31)),
                5 => (true, self.edge().max((1 << 31) + 1)),
                0 => (false, i32::MAX as u64 + 1),
                1 => (true, i32::MAX as u64 + 2),
                2 => (false, u64::MAX - self.t.below(3) as u64),
                _ => (self.t.pct(50), (1u64 << 33) | self.t.u64()),
            };
            let (a, b) = self.sint(neg, v);
            self.add_viol("enum-number", a, b, "enum numbers");
            return (None, a, b);
        }
        let v: i32 = match self.t.weighted(&[60, 20, 10, 10]) {
            0 => self.t.below(20) as i32,
            1 => -(self.t.below(20) as i32),
            2 => *self.t.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1]),
            _ => self.t.u32() as i32,
        };
        let (a, b) = self.i32_tok(v as i64);
        (Some(v), a, b)
    }
    /// list of ranges; path items pushed under the current path; returns (start, end as written inclusive or None=max)
    fn ranges(&mut self, is_enum: bool, base: i32, max_n: usize) -> Vec<(Option<i32>, Option<Option<i32>>, usize, usize)> {
        let n = 1 + self.cnt(0, max_n);
        let mut out = vec![];
        for i in 0..n {
            if i > 0 {
                self.sym(",");
            }
            let (s, a, b) = if is_enum { self.enum_number() } else { self.field_number() };
            let idx = base + i as i32;
            self.path.push(idx);
            self.loc(&[1], a, b);
            match self.t.weighted(&[45, 40, 15]) {
                0 => {
                    self.loc(&[2], a, b);
                    self.loc(&[], a, b);
                    out.push((s, Some(s), a, b));
                }
                1 => {
                    self.id("to");
                    let (e, x, y) = if is_enum { self.enum_number() } else { self.field_number() };
                    self.loc(&[2], x, y);
                    self.loc(&[], a, y);
                    out.push((s, Some(e), a, y));
                }
                _ => {
                    self.id("to");
                    let x = self.id("max");
                    self.loc(&[2], x, x);
                    self.loc(&[], a, x);
                    out.push((s, None, a, x));
                    self.feat("range-to-max");
                }
            }
            self.path.pop();
        }
        if n > 1 {
            self.feat("multi-range");
        }
        out
    }
    fn reserved_names(&mut self, tag: i32, out: &mut Vec<String>) {
        let n = 1 + self.cnt(0, 3);
        for i in 0..n {
            if i > 0 {
                self.sym(",");
            }
            if self.viol(VStage::Parse) {
                let s = self.t.pick(&["1a", "", "a-b", "a.b", "é", "a b", "9", "-", "a\n"]).to_string();
                let (a, b) = self.string(s.as_bytes());
                self.add_viol("reserved-name", a, b, "identifier");
                continue;
            }
            let mut s = self.name();
            if !self.cfg.reserved_underscore && s.starts_with('_') {
                s = format!("u{s}");
            }
            let (a, b) = self.string(s.clone().as_bytes());
            self.loc(&[tag, out.len() as i32], a, b);
            out.push(s);
        }
    }

    // ---------------------------------------------------------------- file
    pub fn file(&mut self, name: &str) -> FileDescriptorProto {
        let mut f = FileDescriptorProto { name: Some(name.to_string()), ..Default::default() };
        let syn = match self.cfg.syntax {
            Some(p3) => {
                if p3 {
                    2
                } else {
                    1
                }
            }
            None => self.t.below(3),
        };
        self.p3 = syn == 2;
        let mut first_end = None;
        if syn > 0 {
            let a = self.id("syntax");
            self.sym("=");
            if self.viol(VStage::Parse) {
                let s = self.t.pick(&["proto4", "", "Proto3", "proto3 ", "proto", "proto2023"]).to_string();
                let (x, y) = self.string(s.as_bytes());
                self.add_viol("unknown-syntax", x, y, "syntax");
                // parsing stops here, so nothing else may be reported
                self.cfg.viol = VStage::None;
            } else {
                let s: &[u8] = if self.p3 { b"proto3" } else { b"proto2" };
                self.string(s);
            }
            let b = self.sym(";");
            self.locc(&[12], a, b, b);
            if self.p3 {
                f.syntax = Some("proto3".into());
            }
            first_end = Some(b);
        }
        let _ = first_end;
        let mut package: Option<(usize, usize)> = None;
        let mut opts = vec![];
        let n = self.cnt(0, self.cfg.decls.max(1));
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.empty_stmts();
            match self.t.weighted(&[36, 14, 12, 12, 12, 8, 8]) {
                0 => {
                    let idx = f.message_type.len();
                    let d = self.message(&[4, idx as i32], self.cfg.depth);
                    f.message_type.push(d);
                }
                1 => {
                    let idx = f.enum_type.len();
                    let e = self.enum_(&[5, idx as i32]);
                    f.enum_type.push(e);
                }
                2 => {
                    let idx = f.service.len();
                    let s = self.service(&[6, idx as i32]);
                    f.service.push(s);
                }
                3 => {
                    let depth = self.cfg.depth;
                    self.extend(7, 4, &mut f.extension, &mut f.message_type, depth);
                }
                4 => {
                    self.path.clear();
                    self.option_stmt(8, &mut opts)
                }
                5 => self.import(&mut f),
                _ => {
                    let dup = package.is_some();
                    if dup && !self.viol(VStage::Parse) {
                        self.import(&mut f);
                        continue;
                    }
                    let a = self.id("package");
                    let s = if dup && self.t.pct(40) {
                        // the same name again
                        let s = f.package.clone().unwrap_or_default();
                        for (i, p) in s.split('.').enumerate() {
                            if i > 0 {
                                self.sym(".");
                            }
                            self.id(p);
                        }
                        s
                    } else {
                        let first = self.name();
                        self.dotted(first, 3)
                    };
                    let b = self.sym(";");
                    if let Some(p) = package {
                        self.viols.push(Viol { class: "second-package", a, b, msg: "multiple package", two: Some(p) });
                    } else {
                        self.locc(&[2], a, b, b);
                        f.package = Some(s);
                        package = Some((a, b));
                    }
                }
            }
        }
        self.empty_stmts();
        if !opts.is_empty() {
            f.options = Some(FileOptions { uninterpreted_option: opts, ..Default::default() });
        }
        self.path.clear();
        if self.toks.is_empty() {
            // special-cased by the location resolver
            self.locs.push(LocExp { path: vec![], a: usize::MAX, b: 0, com: None });
        } else {
            let l = self.last();
            self.loc(&[], 0, l);
        }
        f
    }
    fn empty_stmts(&mut self) {
        while self.t.pct(self.cfg.empties) {
            let i = self.sym(";");
            self.empties.push(i);
            self.feat("empty-statement");
        }
    }
    fn import(&mut self, f: &mut FileDescriptorProto) {
        let a = self.id("import");
        let idx = f.dependency.len() as i32;
        match self.t.weighted(&[60, 25, 15]) {
            0 => {}
            1 => {
                let k = self.id("public");
                let j = f.public_dependency.len() as i32;
                self.loc(&[10, j], k, k);
                f.public_dependency.push(idx);
                self.feat("public-import");
            }
            _ => {
                let k = self.id("weak");
                let j = f.weak_dependency.len() as i32;
                self.loc(&[11, j], k, k);
                f.weak_dependency.push(idx);
                self.feat("weak-import");
            }
        }
        if self.viol(VStage::Parse) {
            if self.t.pct(20) {
                let (x, y) = self.string(b"a/\xff.proto");
                self.add_viol("import-utf8", x, y, "utf-8");
            } else {
                let s = self
                    .t
                    .pick(&["", "/a.proto", "a//b.proto", "./a", "a/../b", "..", ".", "a\\b", "a/", "a/.", "//", "a/b\\c/d"])
                    .to_string();
                let (x, y) = self.string(s.as_bytes());
                self.add_viol("import-name", x, y, "import");
            }
            f.dependency.push(String::new());
        } else {
            let n = 1 + self.cnt(0, 3);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push('/');
                }
                let c = self
                    .t
                    .pick(&["a", "foo.proto", "b-c", "...", "x y", "é", ".hidden", "google", "..a", "a..", "C:", "~"])
                    .to_string();
                s.push_str(&c);
            }
            self.string(s.clone().as_bytes());
            f.dependency.push(s);
        }
        let b = self.sym(";");
        self.path.clear();
        self.locc(&[3, idx], a, b, b);
    }

    // ---------------------------------------------------------------- messages
    fn message(&mut self, path: &[i32], depth: usize) -> DescriptorProto {
        self.budget = self.budget.saturating_sub(1);
        let save = self.path.clone();
        self.path.extend_from_slice(path);
        let a = self.id("message");
        let name = self.name();
        let n = self.id(&name);
        self.loc(&[1], n, n);
        let ob = self.sym("{");
        let mut d = self.body(depth);
        let b = self.sym("}");
        self.locc(&[], a, b, ob);
        d.name = Some(name);
        self.path = save;
        d
    }
    /// message body without the braces
    fn body(&mut self, depth: usize) -> DescriptorProto {
        let mut d = DescriptorProto::default();
        let mut opts = vec![];
        let mut synth: Vec<(usize, String)> = vec![];
        let mut max_res = vec![];
        let mut max_ext = vec![];
        let mut msgset: Option<bool> = None;
        let mut n = self.cnt(0, self.cfg.decls + 1);
        // (more than 64 levels are an error)
        self.level += 1;
        if self.level > 50 {
            n = 0;
        }
        let chain = std::mem::take(&mut self.chain);
        if chain > 0 {
            self.chain = chain - 1;
            let m = self.message(&[3, 0], depth);
            d.nested_type.push(m);
            self.feat("deep nesting");
            n = n.min(2);
        }
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.empty_stmts();
            let nest = if depth > 0 { 8 } else { 0 };
            match self.t.weighted(&[60, 5 + self.cfg.sugar / 4, nest, nest / 2, 4, self.cfg.opt / 2, self.cfg.ranges, self.cfg.ranges, 1]) {
                0 => {
                    let idx = d.field.len();
                    let mut f = self.field(2, idx, 3, &mut d.nested_type, Scope::Message, depth);
                    if f.proto3_optional == Some(true) {
                        let nm = f.name.clone().unwrap();
                        let nm = if nm.starts_with('_') { format!("X{nm}") } else { format!("_{nm}") };
                        synth.push((idx, nm));
                        f.oneof_index = Some(-1);
                    }
                    d.field.push(f);
                }
                1 => {
                    let idx = d.oneof_decl.len() as i32;
                    let o = self.oneof(idx, &mut d.field, &mut d.nested_type, depth);
                    d.oneof_decl.push(o);
                }
                2 => {
                    let idx = d.nested_type.len() as i32;
                    let m = self.message(&[3, idx], depth - 1);
                    d.nested_type.push(m);
                }
                3 => {
                    let idx = d.enum_type.len() as i32;
                    let e = self.enum_(&[4, idx]);
                    d.enum_type.push(e);
                }
                4 => {
                    let (mut ext, mut nt) = (std::mem::take(&mut d.extension), std::mem::take(&mut d.nested_type));
                    self.extend(6, 3, &mut ext, &mut nt, depth);
                    d.extension = ext;
                    d.nested_type = nt;
                }
                5 => self.option_stmt(7, &mut opts),
                6 => {
                    let a = self.id("reserved");
                    if self.t.pct(50) {
                        let base = d.reserved_range.len() as i32;
                        self.path.push(9);
                        let rs = self.ranges(false, base, 4);
                        let b = self.sym(";");
                        self.locc(&[], a, b, b);
                        self.path.pop();
                        for (s, e, _, _) in rs {
                            let end = match e {
                                Some(e) => e.map(|x| x + 1),
                                None => {
                                    max_res.push(d.reserved_range.len());
                                    None
                                }
                            };
                            d.reserved_range.push(descriptor_proto::ReservedRange { start: s, end });
                        }
                        self.feat("reserved-range");
                    } else {
                        self.reserved_names(10, &mut d.reserved_name);
                        let b = self.sym(";");
                        self.locc(&[10], a, b, b);
                        self.feat("reserved-name");
                    }
                }
                7 => {
                    let a = self.id("extensions");
                    let base = d.extension_range.len() as i32;
                    self.path.push(5);
                    let rs = self.ranges(false, base, 3);
                    let mut lists: Option<(Vec<UninterpretedOption>, Vec<LocExp>)> = None;
                    let allow = self.cfg.ext_single_opts || rs.last().is_some_and(|r| r.2 != r.3 || matches!(r.1, None));
                    if allow {
                        // record the list once with a dummy index, then copy for each range
                        let mark = self.locs.len();
                        self.path.push(-7);
                        let vs = self.cfg.viol;
                        if rs.len() > 1 {
                            // an error in the shared list is reported once per range
                            self.cfg.viol = VStage::None;
                        }
                        if let Some(o) = self.option_list(3, &mut vec![]) {
                            let l = self.locs.split_off(mark);
                            lists = Some((o, l));
                        }
                        self.cfg.viol = vs;
                        self.path.pop();
                    }
                    let b = self.sym(";");
                    self.locc(&[], a, b, b);
                    self.path.pop();
                    for (k, (s, e, _, _)) in rs.into_iter().enumerate() {
                        let end = match e {
                            Some(e) => e.map(|x| x + 1),
                            None => {
                                max_ext.push(d.extension_range.len());
                                None
                            }
                        };
                        let mut options = None;
                        if let Some((o, l)) = &lists {
                            options = Some(ExtensionRangeOptions { uninterpreted_option: o.clone() });
                            for x in l {
                                let mut x = x.clone();
                                let p = x.path.iter().position(|v| *v == -7).unwrap();
                                x.path[p] = base + k as i32;
                                self.locs.push(x);
                            }
                        }
                        d.extension_range.push(descriptor_proto::ExtensionRange { start: s, end, options });
                    }
                    if lists.is_some() {
                        self.feat("extension-range-options");
                    }
                    self.feat("extension-range");
                }
                _ => {
                    // message_set_wire_format
                    let a = self.id("option");
                    self.id("message_set_wire_format");
                    self.sym("=");
                    let v = !self.t.pct(30);
                    self.id(if v { "true" } else { "false" });
                    let b = self.sym(";");
                    self.loc(&[7], a, b);
                    self.locc(&[7, 999, opts.len() as i32], a, b, b);
                    opts.push(UninterpretedOption {
                        name: vec![uninterpreted_option::NamePart {
                            name_part: "message_set_wire_format".into(),
                            is_extension: false,
                        }],
                        identifier_value: Some(if v { "true" } else { "false" }.into()),
                        ..Default::default()
                    });
                    if msgset.is_none() {
                        msgset = Some(v);
                    }
                    self.feat("message-set");
                }
            }
        }
        self.empty_stmts();
        let max_end = if msgset == Some(true) { i32::MAX } else { MAXF + 1 };
        for i in max_res {
            d.reserved_range[i].end = Some(max_end);
        }
        for i in max_ext {
            d.extension_range[i].end = Some(max_end);
        }
        self.level -= 1;
        let real = d.oneof_decl.len();
        if real > 0 && !synth.is_empty() {
            self.feat("real+synthetic-oneofs");
        }
        // a synthetic oneof never shares its name with a field or another oneof of the message
        let mut names: std::collections::HashSet<String> =
            d.field.iter().map(|f| f.name().to_string()).chain(d.oneof_decl.iter().map(|o| o.name().to_string())).collect();
        // (fields with the same name, which is an error found later, share the one of the first)
        let mut given: std::collections::HashMap<String, String> = Default::default();
        for (k, (idx, first)) in synth.into_iter().enumerate() {
            let mut nm = first.clone();
            if let Some(n) = given.get(&first) {
                nm = n.clone();
            } else {
                while !names.insert(nm.clone()) {
                    nm.insert(0, 'X');
                    self.feat("synthetic-oneof-conflict");
                }
                given.insert(first, nm.clone());
            }
            d.field[idx].oneof_index = Some((real + k) as i32);
            d.oneof_decl.push(OneofDescriptorProto { name: Some(nm), options: None });
        }
        if !opts.is_empty() {
            d.options = Some(MessageOptions { uninterpreted_option: opts, ..Default::default() });
        }
        d
    }
    fn oneof(
        &mut self,
        idx: i32,
        fields: &mut Vec<FieldDescriptorProto>,
        nested: &mut Vec<DescriptorProto>,
        depth: usize,
    ) -> OneofDescriptorProto {
        self.feat("oneof");
        let a = self.id("oneof");
        let name = self.member_name();
        let n = self.id(&name);
        let ob = self.sym("{");
        let mut opts = vec![];
        let empty = self.viol(VStage::Gen);
        let k = if empty { 0 } else { 1 + self.cnt(0, 3) };
        for i in 0..k + 1 {
            self.empty_stmts();
            if self.t.pct(self.cfg.opt) {
                self.path.extend([8, idx]);
                self.option_stmt(2, &mut opts);
                self.path.truncate(self.path.len() - 2);
            }
            if i < k {
                let fi = fields.len();
                let mut f = self.field(2, fi, 3, nested, Scope::Oneof, depth);
                f.oneof_index = Some(idx);
                fields.push(f);
            }
        }
        let b = self.sym("}");
        self.locc(&[8, idx], a, b, ob);
        self.loc(&[8, idx, 1], n, n);
        if empty {
            self.add_viol("empty-oneof", a, b, "at least one field");
        }
        OneofDescriptorProto {
            name: Some(name),
            options: if opts.is_empty() { None } else { Some(OneofOptions { uninterpreted_option: opts }) },
        }
    }
    fn extend(
        &mut self,
        ext_tag: i32,
        msg_tag: i32,
        exts: &mut Vec<FieldDescriptorProto>,
        msgs: &mut Vec<DescriptorProto>,
        depth: usize,
    ) {
        self.feat("extend");
        let a = self.id("extend");
        let (ty, x, y) = self.type_name(|_| false);
        let ob = self.sym("{");
        let k = 1 + self.cnt(0, 3);
        for _ in 0..k {
            self.empty_stmts();
            let idx = exts.len();
            let mut f = self.field(ext_tag, idx, msg_tag, msgs, Scope::Extend, depth);
            f.extendee = Some(ty.clone());
            self.loc(&[ext_tag, idx as i32, 2], x, y);
            exts.push(f);
        }
        self.empty_stmts();
        let b = self.sym("}");
        self.locc(&[ext_tag], a, b, ob);
    }

    fn is_scalar(s: &str) -> bool {
        SCALARS.iter().any(|x| x.0 == s)
    }

    fn field(
        &mut self,
        tag: i32,
        idx: usize,
        msg_tag: i32,
        msgs: &mut Vec<DescriptorProto>,
        scope: Scope,
        depth: usize,
    ) -> FieldDescriptorProto {
        self.budget = self.budget.saturating_sub(1);
        let mut f = FieldDescriptorProto::default();
        let base = self.path.clone();
        self.path.extend([tag, idx as i32]);
        let a = self.toks.len();

        // kind: 0 scalar, 1 named, 2 map, 3 group
        let sug = self.cfg.sugar;
        let mut map_scope_viol = false;
        let mut kind = self.t.weighted(&[
            60,
            25,
            if scope == Scope::Message { sug / 2 } else { 0 },
            if self.p3 { 0 } else { sug / 2 },
        ]);
        if scope != Scope::Message && self.viol(VStage::Gen) {
            kind = 2;
            map_scope_viol = true;
        }
        let mut group3 = false;
        if self.p3 && kind != 2 && self.viol(VStage::Gen) {
            kind = 3;
            group3 = true;
        }

        // label
        let mut label: Option<(&'static str, Label)> = None;
        let mut missing_label = false;
        let mut label_viol: Option<(&'static str, &'static str)> = None;
        if kind == 2 {
            if scope == Scope::Message && self.viol(VStage::Gen) {
                // do not use `optional` in proto3 here: it would also be a proto3 optional
                label = Some(if self.p3 {
                    *self.t.pick(&[("repeated", Label::Repeated), ("required", Label::Required)])
                } else {
                    *self.t.pick(&[("repeated", Label::Repeated), ("required", Label::Required), ("optional", Label::Optional)])
                });
                label_viol = Some(("map-label", "map fields cannot have labels"));
            }
        } else {
            match scope {
                Scope::Oneof => {
                    if self.viol(VStage::Gen) {
                        label = Some(*self.t.pick(&[
                            ("optional", Label::Optional),
                            ("repeated", Label::Repeated),
                            ("required", Label::Required),
                        ]));
                        label_viol = Some(("oneof-label", "oneof fields cannot have labels"));
                    }
                }
                Scope::Message | Scope::Extend => {
                    if self.p3 {
                        label = match self.t.weighted(&[50, 25, sug.max(5)]) {
                            0 => None,
                            1 => Some(("repeated", Label::Repeated)),
                            _ => Some(("optional", Label::Optional)),
                        };
                        if self.viol(VStage::Gen) {
                            label = Some(("required", Label::Required));
                            label_viol = Some(if scope == Scope::Extend {
                                ("required-extend", "may not be required")
                            } else {
                                ("required-proto3", "required fields are not allowed in proto3")
                            });
                        }
                    } else if self.viol(VStage::Gen) {
                        if scope == Scope::Extend && self.t.pct(50) {
                            label = Some(("required", Label::Required));
                            label_viol = Some(("required-extend", "may not be required"));
                        } else {
                            missing_label = true;
                        }
                    } else {
                        label = Some(match self.t.weighted(&[50, 25, if scope == Scope::Extend { 0 } else { 15 }]) {
                            0 => ("optional", Label::Optional),
                            1 => ("repeated", Label::Repeated),
                            _ => ("required", Label::Required),
                        });
                    }
                }
            }
        }
        if let Some((s, l)) = label {
            let k = self.id(s);
            if label_viol.is_none() {
                self.loc(&[4], k, k);
            }
            if let Some((c, m)) = label_viol {
                self.add_viol(c, k, k, m);
            }
            f.label = Some(l as i32);
            if self.p3 && s == "optional" && kind != 2 && scope != Scope::Oneof {
                f.proto3_optional = Some(true);
                self.feat("proto3-optional");
            }
        } else {
            f.label = Some(if kind == 2 { Label::Repeated } else { Label::Optional } as i32);
        }
        let repeated = f.label == Some(Label::Repeated as i32) && kind != 2;

        let labelled = label.is_some();
        // proto3 optional in an extension has no synthetic oneof
        let mut specials: Vec<Special> = vec![];
        match kind {
            0 | 1 => {
                let mut ty = None;
                if kind == 0 {
                    let (n, t) = *self.t.pick(SCALARS);
                    let k = self.id(n);
                    self.loc(&[5], k, k);
                    f.r#type = Some(t as i32);
                    ty = Some(t);
                } else {
                    let in_msg = scope == Scope::Message;
                    let in_oneof = scope == Scope::Oneof;
                    let (n, x, y) = self.type_name(|s| {
                        Self::is_scalar(s)
                            || s == "group"
                            || (!labelled
                                && (matches!(s, "optional" | "required" | "repeated")
                                    || (in_oneof && s == "option")
                                    || (in_msg
                                        && matches!(
                                            s,
                                            "oneof" | "enum" | "message" | "extend" | "option" | "reserved" | "extensions"
                                        ))))
                    });
                    self.loc(&[6], x, y);
                    f.type_name = Some(n);
                }
                let name = self.member_name();
                let nk = self.id(&name);
                self.loc(&[1], nk, nk);
                f.name = Some(name);
                self.sym("=");
                let (num, x, y) = self.field_number();
                self.loc(&[3], x, y);
                f.number = num;
                let dv = if self.p3 || repeated {
                    if self.viol(VStage::Gen) {
                        let (class, msg) = if repeated {
                            ("default-repeated", "may not have default values")
                        } else {
                            ("default-proto3", "default values are not allowed in proto3")
                        };
                        let (toks, _) = self.default_value(ty);
                        specials.push(Special { json: false, toks, viol: Some((class, msg, true)) });
                    }
                    false
                } else {
                    self.t.pct(self.cfg.defaults)
                };
                if dv {
                    if ty.is_some() && self.viol(VStage::Gen) {
                        let (toks, class, msg) = self.bad_default(ty.unwrap());
                        specials.push(Special { json: false, toks, viol: Some((class, msg, false)) });
                    } else {
                        let (toks, v) = self.default_value(ty);
                        f.default_value = Some(v);
                        specials.push(Special { json: false, toks, viol: None });
                        self.feat("default");
                    }
                }
                f.json_name = self.json_name(&mut specials);
                if specials.len() > 1 && self.t.pct(50) {
                    specials.swap(0, 1);
                }
                let o = self.option_list(8, &mut specials);
                let b = self.sym(";");
                self.locc(&[], a, b, b);
                set_field_opts(&mut f, o);
                if missing_label {
                    self.add_viol("missing-label", a, b, "must have a label");
                }
            }
            2 => {
                self.feat("map");
                let k = self.id("map");
                self.sym("<");
                let mut key = FieldDescriptorProto {
                    name: Some("key".into()),
                    json_name: Some("key".into()),
                    number: Some(1),
                    label: Some(Label::Optional as i32),
                    ..Default::default()
                };
                if self.viol(VStage::Gen) {
                    let (x, y) = if self.t.pct(40) {
                        let (_, x, y) = self.type_name(Self::is_scalar);
                        (x, y)
                    } else {
                        let s = self.t.pick(&["float", "double", "bytes"]).to_string();
                        let x = self.id(&s);
                        (x, x)
                    };
                    self.add_viol("map-key", x, y, "map field key");
                } else {
                    let ok: Vec<_> = SCALARS
                        .iter()
                        .filter(|s| !matches!(s.1, Type::Double | Type::Float | Type::Bytes))
                        .collect();
                    let (n, t) = **self.t.pick(&ok);
                    self.id(n);
                    key.r#type = Some(t as i32);
                }
                self.sym(",");
                let mut value = FieldDescriptorProto {
                    name: Some("value".into()),
                    json_name: Some("value".into()),
                    number: Some(2),
                    label: Some(Label::Optional as i32),
                    ..Default::default()
                };
                if self.t.pct(40) {
                    let (n, _, _) = self.type_name(Self::is_scalar);
                    value.type_name = Some(n);
                } else {
                    let (n, t) = *self.t.pick(SCALARS);
                    self.id(n);
                    value.r#type = Some(t as i32);
                }
                let k2 = self.sym(">");
                self.loc(&[6], k, k2);
                let name = self.name();
                let nk = self.id(&name);
                self.loc(&[1], nk, nk);
                self.sym("=");
                let (num, x, y) = self.field_number();
                self.loc(&[3], x, y);
                f.number = num;
                if self.viol(VStage::Gen) {
                    let (toks, _) = self.default_value(Some(Type::Int32));
                    specials.push(Special {
                        json: false,
                        toks,
                        viol: Some(("default-map", "may not have default values", true)),
                    });
                }
                f.json_name = self.json_name(&mut specials);
                let o = self.option_list(8, &mut specials);
                let b = self.sym(";");
                self.locc(&[], a, b, b);
                set_field_opts(&mut f, o);
                let entry = format!("{}Entry", camel(&name));
                f.type_name = Some(entry.clone());
                f.r#type = Some(Type::Message as i32);
                f.label = Some(Label::Repeated as i32);
                f.name = Some(name);
                msgs.push(DescriptorProto {
                    name: Some(entry),
                    field: vec![key, value],
                    options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                    ..Default::default()
                });
                if map_scope_viol {
                    self.add_viol(
                        if scope == Scope::Oneof { "map-in-oneof" } else { "map-in-extend" },
                        a,
                        b,
                        "map fields are not allowed in",
                    );
                }
            }
            _ => {
                self.feat("group");
                if scope == Scope::Oneof {
                    self.feat("group-in-oneof");
                }
                if scope == Scope::Extend {
                    self.feat("group-in-extend");
                }
                let k = self.id("group");
                self.loc(&[5], k, k);
                let nk;
                let name;
                if self.viol(VStage::Parse) {
                    let n = self.t.pick(&["foo", "_Foo", "fOO", "_", "z9"]).to_string();
                    nk = self.id(&n);
                    self.add_viol("group-name", nk, nk, "group name");
                    name = n;
                } else {
                    let mut n: Vec<char> = self.name().chars().collect();
                    if n[0].is_ascii_lowercase() {
                        n[0] = n[0].to_ascii_uppercase();
                    } else if !n[0].is_ascii_uppercase() {
                        n.insert(0, 'G');
                    }
                    name = n.into_iter().collect();
                    nk = self.id(&name);
                }
                self.loc(&[1], nk, nk);
                self.loc(&[6], nk, nk);
                self.sym("=");
                let (num, x, y) = self.field_number();
                self.loc(&[3], x, y);
                f.number = num;
                if !repeated && !self.p3 && self.viol(VStage::Gen) {
                    let (toks, _) = self.default_value(None);
                    specials.push(Special {
                        json: false,
                        toks,
                        viol: Some(("default-group", "may not have default values", true)),
                    });
                }
                f.json_name = self.json_name(&mut specials);
                let o = self.option_list(8, &mut specials);
                set_field_opts(&mut f, o);
                let ob = self.sym("{");
                let fpath = std::mem::replace(&mut self.path, base.clone());
                self.path.extend([msg_tag, msgs.len() as i32]);
                // reserve the slot: groups nested in this body go to the body, not to msgs
                let mut m = self.body(depth.saturating_sub(1));
                let b = self.sym("}");
                self.locc(&[], a, b, ob);
                self.loc(&[1], nk, nk);
                self.path = fpath;
                self.loc(&[], a, b);
                m.name = Some(name.clone());
                msgs.push(m);
                f.name = Some(name.to_ascii_lowercase());
                f.type_name = Some(name);
                f.r#type = Some(Type::Group as i32);
                if missing_label {
                    self.add_viol("missing-label", a, b, "must have a label");
                }
                if group3 {
                    self.add_viol("group-proto3", a, b, "groups are not allowed");
                }
            }
        }
        if scope == Scope::Oneof || scope == Scope::Extend {
            // synthetic oneofs exist only for message-level fields
            if scope == Scope::Oneof {
                f.proto3_optional = None;
            }
        }
        self.path = base;
        f
    }
    fn json_name(&mut self, specials: &mut Vec<Special>) -> Option<String> {
        if !self.t.pct(self.cfg.defaults / 2) {
            return None;
        }
        self.feat("json_name");
        if self.viol(VStage::Gen) {
            let mark = self.toks.len();
            let (class, msg) = match self.t.below(3) {
                0 => {
                    self.id("foo");
                    ("json-name-type", "expected value to be a string")
                }
                1 => {
                    self.int(5);
                    ("json-name-type", "expected value to be a string")
                }
                _ => {
                    self.string(b"a\xff");
                    ("json-name-utf8", "utf-8")
                }
            };
            let toks = self.toks.split_off(mark);
            specials.push(Special { json: true, toks, viol: Some((class, msg, false)) });
            return None;
        }
        let v = self.bytes_value(true);
        let v = String::from_utf8(v).unwrap();
        let mark = self.toks.len();
        self.string(v.as_bytes());
        let toks = self.toks.split_off(mark);
        specials.push(Special { json: true, toks, viol: None });
        Some(v)
    }
    /// tokens of a valid default value for the type (None = named type) and its canonical text
    pub fn default_value(&mut self, ty: Option<Type>) -> (Vec<Tok>, String) {
        let mark = self.toks.len();
        let v = match ty {
            None => {
                let n = self.name();
                self.id(&n);
                n
            }
            Some(Type::Bool) => {
                let v = self.t.pct(50);
                self.id(if v { "true" } else { "false" });
                v.to_string()
            }
            Some(Type::Double | Type::Float) => match self.t.below(4) {
                0 => {
                    let neg = self.t.pct(40);
                    if neg {
                        self.sym("-");
                    }
                    let (_, v) = self.float();
                    canon_f64(if neg { -v } else { v })
                }
                1 => {
                    let v = self.u64_value();
                    let neg = self.t.pct(40);
                    self.sint(neg, v);
                    let x = v as f64;
                    canon_f64(if neg { -x } else { x })
                }
                2 => {
                    let neg = self.t.pct(50);
                    if neg {
                        self.sym("-");
                    }
                    self.id("inf");
                    canon_f64(if neg { f64::NEG_INFINITY } else { f64::INFINITY })
                }
                _ => {
                    if self.t.pct(50) {
                        self.sym("-");
                    }
                    self.id("nan");
                    canon_f64(f64::NAN)
                }
            },
            Some(Type::String) => {
                let b = self.bytes_value(true);
                self.string(&b);
                String::from_utf8(b).unwrap()
            }
            Some(Type::Bytes) => {
                let b = self.bytes_value(false);
                self.string(&b);
                canon_bytes(&b)
            }
            Some(t) => {
                let (lo, hi) = int_range(t);
                let v = self.in_range(lo, hi);
                self.sint(v < 0, v.unsigned_abs() as u64);
                v.to_string()
            }
        };
        (self.toks.split_off(mark), v)
    }
    fn in_range(&mut self, lo: i128, hi: i128) -> i128 {
        match self.t.below(6) {
            0 => (self.t.below(100) as i128).clamp(lo, hi),
            1 => hi,
            2 => lo,
            3 => hi - self.t.below(3) as i128,
            4 => lo + self.t.below(3) as i128,
            _ => lo + (self.t.u64() as i128).rem_euclid(hi - lo + 1),
        }
    }
    /// a default that does not fit the type: (tokens, class, message part)
    pub fn bad_default(&mut self, ty: Type) -> (Vec<Tok>, &'static str, &'static str) {
        let mark = self.toks.len();
        let class;
        let msg;
        let is_int = matches!(
            ty,
            Type::Int32
                | Type::Int64
                | Type::Uint32
                | Type::Uint64
                | Type::Sint32
                | Type::Sint64
                | Type::Fixed32
                | Type::Fixed64
                | Type::Sfixed32
                | Type::Sfixed64
        );
        if is_int && self.t.pct(60) {
            let (lo, hi) = int_range(ty);
            let v: i128 = match self.t.below(6) {
                4 => self.edge() as i128,
                5 => -(self.edge() as i128),
                0 => hi + 1,
                1 => lo - 1,
                2 => u64::MAX as i128,
                _ => -(u64::MAX as i128),
            };
            let v = if v > u64::MAX as i128 || (v >= lo && v <= hi) { lo - 1 } else { v };
            self.sint(v < 0, v.unsigned_abs() as u64);
            class = "default-out-of-range";
            msg = "out of range";
        } else {
            class = "default-type";
            msg = "expected value to be";
            let mut k = self.t.below(6);
            // skip kinds that would be valid for the type
            loop {
                let ok = match (ty, k) {
                    (Type::Double | Type::Float, 1 | 2) => true,
                    (Type::String | Type::Bytes, 3) => true,
                    (_, 1) if is_int => true,
                    _ => false,
                };
                if !ok {
                    break;
                }
                k = (k + 1) % 6;
            }
            match k {
                0 => {
                    let n = *self.t.pick(&["foo", "True", "FALSE", "infinity", "NaN", "null"]);
                    self.id(n);
                }
                1 => {
                    let v = self.t.below(3) as u64;
                    let neg = self.t.pct(30);
                    self.sint(neg, v);
                }
                2 => {
                    self.float();
                }
                3 => {
                    let b = self.bytes_value(true);
                    self.string(&b);
                }
                4 => {
                    self.sym("{");
                    self.in_agg = true;
                    if self.t.pct(50) {
                        self.id("a");
                        self.sym(":");
                        self.int(1);
                    }
                    self.sym("}");
                    self.in_agg = false;
                }
                _ => {
                    self.sym("-");
                    self.id("true");
                }
            }
        }
        (self.toks.split_off(mark), class, msg)
    }

    // ---------------------------------------------------------------- enums & services
    fn enum_(&mut self, path: &[i32]) -> EnumDescriptorProto {
        self.budget = self.budget.saturating_sub(1);
        let save = self.path.clone();
        self.path.extend_from_slice(path);
        let mut e = EnumDescriptorProto::default();
        let a = self.id("enum");
        let name = self.name();
        let n = self.id(&name);
        self.loc(&[1], n, n);
        e.name = Some(name);
        let ob = self.sym("{");
        let mut opts = vec![];
        let k = self.cnt(0, self.cfg.decls + 1);
        for _ in 0..k {
            self.empty_stmts();
            match self.t.weighted(&[70, self.cfg.opt / 2, self.cfg.ranges]) {
                0 => {
                    self.budget = self.budget.saturating_sub(1);
                    let a = self.toks.len();
                    let mut name = self.name();
                    if name == "option" || name == "reserved" {
                        name.push('_');
                    }
                    self.path.extend([2, e.value.len() as i32]);
                    let nk = self.id(&name);
                    self.loc(&[1], nk, nk);
                    self.sym("=");
                    let (num, x, y) = self.enum_number();
                    self.loc(&[2], x, y);
                    let o = self.option_list(3, &mut vec![]);
                    let b = self.sym(";");
                    self.locc(&[], a, b, b);
                    self.path.truncate(self.path.len() - 2);
                    e.value.push(EnumValueDescriptorProto {
                        name: Some(name),
                        number: num,
                        options: o.map(|o| EnumValueOptions { uninterpreted_option: o, ..Default::default() }),
                    });
                }
                1 => self.option_stmt(3, &mut opts),
                _ => {
                    let a = self.id("reserved");
                    if self.t.pct(60) {
                        let base = e.reserved_range.len() as i32;
                        self.path.push(4);
                        let rs = self.ranges(true, base, 4);
                        let b = self.sym(";");
                        self.locc(&[], a, b, b);
                        self.path.pop();
                        for (s, en, _, _) in rs {
                            e.reserved_range.push(enum_descriptor_proto::EnumReservedRange {
                                start: s,
                                end: match en {
                                    Some(v) => v,
                                    None => Some(i32::MAX),
                                },
                            });
                        }
                        self.feat("enum-reserved-range");
                    } else {
                        self.reserved_names(5, &mut e.reserved_name);
                        let b = self.sym(";");
                        self.locc(&[5], a, b, b);
                        self.feat("enum-reserved-name");
                    }
                }
            }
        }
        self.empty_stmts();
        let b = self.sym("}");
        self.locc(&[], a, b, ob);
        if !opts.is_empty() {
            e.options = Some(EnumOptions { uninterpreted_option: opts, ..Default::default() });
        }
        self.path = save;
        e
    }
    fn service(&mut self, path: &[i32]) -> ServiceDescriptorProto {
        self.budget = self.budget.saturating_sub(1);
        let save = self.path.clone();
        self.path.extend_from_slice(path);
        let mut s = ServiceDescriptorProto::default();
        let a = self.id("service");
        let name = self.name();
        let n = self.id(&name);
        self.loc(&[1], n, n);
        s.name = Some(name);
        let ob = self.sym("{");
        let mut opts = vec![];
        let k = self.cnt(0, self.cfg.decls);
        for _ in 0..k {
            self.empty_stmts();
            if self.t.pct(self.cfg.opt / 2) {
                self.option_stmt(3, &mut opts);
                continue;
            }
            self.budget = self.budget.saturating_sub(1);
            let mut m = MethodDescriptorProto::default();
            self.path.extend([2, s.method.len() as i32]);
            let a = self.id("rpc");
            let name = self.name();
            let nk = self.id(&name);
            self.loc(&[1], nk, nk);
            m.name = Some(name);
            self.sym("(");
            if self.t.pct(30) {
                let k = self.id("stream");
                self.loc(&[5], k, k);
                m.client_streaming = Some(true);
                self.feat("stream");
            }
            let streamed = m.client_streaming.is_some();
            let (ty, x, y) = self.type_name(|n| !streamed && n == "stream");
            self.loc(&[2], x, y);
            m.input_type = Some(ty);
            self.sym(")");
            self.id("returns");
            self.sym("(");
            if self.t.pct(30) {
                let k = self.id("stream");
                self.loc(&[6], k, k);
                m.server_streaming = Some(true);
                self.feat("stream");
            }
            let streamed = m.server_streaming.is_some();
            let (ty, x, y) = self.type_name(|n| !streamed && n == "stream");
            self.loc(&[3], x, y);
            m.output_type = Some(ty);
            self.sym(")");
            let b;
            let end;
            if self.t.pct(30) {
                self.feat("rpc-body");
                end = self.sym("{");
                let mut mo = vec![];
                let k = self.cnt(0, 3);
                for _ in 0..k {
                    self.empty_stmts();
                    self.option_stmt(4, &mut mo);
                }
                self.empty_stmts();
                b = self.sym("}");
                if !mo.is_empty() {
                    m.options = Some(MethodOptions { uninterpreted_option: mo, ..Default::default() });
                }
            } else {
                b = self.sym(";");
                end = b;
            }
            self.locc(&[], a, b, end);
            self.path.truncate(self.path.len() - 2);
            s.method.push(m);
        }
        self.empty_stmts();
        let b = self.sym("}");
        self.locc(&[], a, b, ob);
        if !opts.is_empty() {
            s.options = Some(ServiceOptions { uninterpreted_option: opts, ..Default::default() });
        }
        self.path = save;
        s
    }
}

pub struct Special {
    json: bool,
    toks: Vec<Tok>,
    /// class, message, whole option (else only the value)
    viol: Option<(&'static str, &'static str, bool)>,
}

fn set_field_opts(f: &mut FieldDescriptorProto, o: Option<Vec<UninterpretedOption>>) {
    if let Some(o) = o {
        if !o.is_empty() {
            f.options = Some(FieldOptions { uninterpreted_option: o, ..Default::default() });
        }
    }
}

pub fn int_range(t: Type) -> (i128, i128) {
    match t {
        Type::Int32 | Type::Sint32 | Type::Sfixed32 => (i32::MIN as i128, i32::MAX as i128),
        Type::Int64 | Type::Sint64 | Type::Sfixed64 => (i64::MIN as i128, i64::MAX as i128),
        Type::Uint32 | Type::Fixed32 => (0, u32::MAX as i128),
        Type::Uint64 | Type::Fixed64 => (0, u64::MAX as i128),
        _ => unreachable!(),
    }
}

/// protoc's map entry name: underscores removed, the character after each (and the first) upper-cased
pub fn camel(name: &str) -> String {
    name.split('_')
        .map(|p| {
            let mut c = p.chars();
            match c.next() {
                Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
                None => String::new(),
            }
        })
        .collect()
}

pub fn canon_f64(v: f64) -> String {
    if v.is_nan() {
        "f:nan".into()
    } else {
        format!("f:{:016x}", v.to_bits())
    }
}
pub fn canon_bytes(b: &[u8]) -> String {
    let mut s = String::from("b:");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
