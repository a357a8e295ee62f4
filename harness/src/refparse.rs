//! An independent recogniser for the proto2/proto3 grammar over token sequences.
use crate::checks::layoutp::int_value;
use crate::gen::{Tok, MAXF, TK};
use crate::textfmt::unescape;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Verdict {
    Accept,
    /// no file starts with the tokens up to and including this one (n: end of file)
    Reject(usize),
    /// grammatical, but against a file-local rule
    Rule(&'static str),
    /// a form on which the grammar and protoc leave room
    Unspecified,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    p3: bool,
    rule: Option<&'static str>,
    unspec: bool,
    depth: usize,
}
type R<T = ()> = Result<T, usize>;

#[derive(PartialEq, Clone, Copy)]
enum Scope {
    Message,
    Oneof,
    Extend,
}
#[derive(Clone, Debug)]
enum Val {
    Ident(bool, String),
    Int(bool, u64),
    Float,
    Str(Vec<u8>),
    Agg,
}

const SCALARS: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
    "sfixed64", "bool", "string", "bytes",
];

pub fn judge(toks: &[Tok]) -> Verdict {
    let mut p = P { t: toks, i: 0, p3: false, rule: None, unspec: false, depth: 0 };
    let r = p.file();
    if p.unspec {
        return Verdict::Unspecified;
    }
    match r {
        Err(i) => Verdict::Reject(i),
        Ok(()) => match p.rule {
            Some(r) => Verdict::Rule(r),
            None => Verdict::Accept,
        },
    }
}

impl P<'_> {
    fn s(&self) -> &str {
        self.t.get(self.i).filter(|t| t.k != TK::Str).map_or("", |t| t.s.as_str())
    }
    fn k(&self) -> Option<TK> {
        self.t.get(self.i).map(|t| t.k)
    }
    fn sym(&mut self, s: &str) -> R {
        if self.k() == Some(TK::Sym) && self.s() == s {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn is_sym(&self, s: &str) -> bool {
        self.k() == Some(TK::Sym) && self.s() == s
    }
    fn word(&mut self, s: &str) -> R {
        if self.is_word(s) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn is_word(&self, s: &str) -> bool {
        self.k() == Some(TK::Ident) && self.s() == s
    }
    fn ident(&mut self) -> R<String> {
        if self.k() == Some(TK::Ident) {
            self.i += 1;
            Ok(self.t[self.i - 1].s.clone())
        } else {
            Err(self.i)
        }
    }
    fn bad(&mut self, r: &'static str) {
        self.rule.get_or_insert(r);
    }
    fn full_ident(&mut self) -> R<String> {
        let mut s = self.ident()?;
        while self.is_sym(".") {
            self.i += 1;
            s.push('.');
            s.push_str(&self.ident()?);
        }
        Ok(s)
    }
    fn type_name(&mut self) -> R<String> {
        if self.is_sym(".") {
            self.i += 1;
            return Ok(format!(".{}", self.full_ident()?));
        }
        self.full_ident()
    }
    fn string(&mut self) -> R<Vec<u8>> {
        if self.k() != Some(TK::Str) {
            return Err(self.i);
        }
        let mut v = vec![];
        while self.k() == Some(TK::Str) {
            let s = &self.t[self.i].s;
            v.extend(unescape(&s.as_bytes()[1..s.len() - 1]).expect("string token"));
            self.i += 1;
        }
        Ok(v)
    }
    /// sign and magnitude
    fn int(&mut self) -> R<(bool, u64)> {
        let neg = self.is_sym("-");
        if neg {
            self.i += 1;
        }
        if self.k() != Some(TK::Int) {
            return Err(self.i);
        }
        self.i += 1;
        Ok((neg, int_value(&self.t[self.i - 1].s)))
    }
    fn field_number(&mut self) -> R {
        let (neg, v) = self.int()?;
        if neg || v < 1 || v > MAXF as u64 {
            self.bad("field number");
        }
        Ok(())
    }
    fn enum_number(&mut self) -> R {
        let (neg, v) = self.int()?;
        if v > if neg { 1 << 31 } else { (1 << 31) - 1 } {
            self.bad("enum number");
        }
        Ok(())
    }

    fn file(&mut self) -> R {
        if self.is_word("syntax") {
            self.i += 1;
            self.sym("=")?;
            let v = self.string()?;
            match v.as_slice() {
                b"proto2" => {}
                b"proto3" => self.p3 = true,
                _ => self.bad("syntax"),
            }
            self.sym(";")?;
        }
        let mut package = false;
        while self.i < self.t.len() {
            if self.is_sym(";") {
                self.i += 1;
                continue;
            }
            if self.k() != Some(TK::Ident) {
                return Err(self.i);
            }
            match self.s() {
                "import" => {
                    self.i += 1;
                    if self.is_word("public") || self.is_word("weak") {
                        self.i += 1;
                    }
                    let v = self.string()?;
                    match String::from_utf8(v) {
                        Ok(s) => {
                            if s.split('/').any(|c| c.is_empty() || c == "." || c == ".." || c.contains('\\')) {
                                self.bad("import");
                            }
                        }
                        Err(_) => self.bad("import utf-8"),
                    }
                    self.sym(";")?;
                }
                "package" => {
                    self.i += 1;
                    self.full_ident()?;
                    self.sym(";")?;
                    if package {
                        self.bad("second package");
                    }
                    package = true;
                }
                "option" => self.option()?,
                "message" => self.message()?,
                "enum" => self.enum_()?,
                "service" => self.service()?,
                "extend" => self.extend()?,
                _ => return Err(self.i),
            }
        }
        Ok(())
    }

    fn option(&mut self) -> R {
        self.word("option")?;
        let (_, v) = self.option_body()?;
        self.plain_value(&v);
        self.sym(";")
    }
    fn plain_value(&mut self, v: &Val) {
        match v {
            Val::Ident(true, _) => self.bad("negative identifier"),
            Val::Int(true, n) if *n > 1 << 63 => self.bad("option value"),
            _ => {}
        }
    }
    /// (name when it is a single plain part, value)
    fn option_body(&mut self) -> R<(Option<String>, Val)> {
        let mut name = vec![];
        loop {
            if self.is_sym("(") {
                self.i += 1;
                self.type_name()?;
                self.sym(")")?;
                name.push(None);
            } else {
                name.push(Some(self.ident()?));
            }
            if self.is_sym(".") {
                self.i += 1;
                continue;
            }
            self.sym("=")?;
            break;
        }
        let single = if name.len() == 1 { name.pop().unwrap() } else { None };
        let v = self.constant()?;
        Ok((single, v))
    }
    fn constant(&mut self) -> R<Val> {
        let neg = self.is_sym("-");
        if neg {
            self.i += 1;
        }
        match self.k() {
            Some(TK::Ident) => {
                let s = self.ident()?;
                if self.is_sym(".") {
                    // the specification has fullIdent here, protoc does not
                    self.unspec = true;
                }
                Ok(Val::Ident(neg, s))
            }
            Some(TK::Int) => {
                self.i += 1;
                Ok(Val::Int(neg, int_value(&self.t[self.i - 1].s)))
            }
            Some(TK::Float) => {
                self.i += 1;
                Ok(Val::Float)
            }
            Some(TK::Str) if !neg => Ok(Val::Str(self.string()?)),
            Some(TK::Sym) if !neg && self.s() == "{" => {
                let mut depth = 0;
                loop {
                    if self.i >= self.t.len() {
                        return Err(self.i);
                    }
                    if self.is_sym("{") {
                        depth += 1;
                    } else if self.is_sym("}") {
                        depth -= 1;
                    }
                    self.i += 1;
                    if depth == 0 {
                        return Ok(Val::Agg);
                    }
                }
            }
            _ => Err(self.i),
        }
    }
    fn option_list(&mut self) -> R<Vec<(Option<String>, Val)>> {
        self.sym("[")?;
        let mut v = vec![self.option_body()?];
        while self.is_sym(",") {
            self.i += 1;
            v.push(self.option_body()?);
        }
        self.sym("]")?;
        Ok(v)
    }
    fn plain_list(&mut self) -> R {
        if self.is_sym("[") {
            for (_, v) in self.option_list()? {
                self.plain_value(&v);
            }
        }
        Ok(())
    }

    fn message(&mut self) -> R {
        self.word("message")?;
        self.ident()?;
        self.sym("{")?;
        self.body()
    }
    fn body(&mut self) -> R {
        self.depth += 1;
        if self.depth > 32 {
            self.unspec = true;
        }
        loop {
            if self.is_sym("}") {
                self.i += 1;
                self.depth -= 1;
                return Ok(());
            }
            if self.is_sym(";") {
                self.i += 1;
                continue;
            }
            if self.is_sym(".") {
                self.field(Scope::Message)?;
                continue;
            }
            if self.k() != Some(TK::Ident) {
                return Err(self.i);
            }
            match self.s() {
                "message" => self.message()?,
                "enum" => self.enum_()?,
                "extend" => self.extend()?,
                "option" => self.option()?,
                "oneof" => self.oneof()?,
                "reserved" => self.reserved(false)?,
                "extensions" => {
                    self.i += 1;
                    self.ranges(false)?;
                    self.plain_list()?;
                    self.sym(";")?;
                }
                _ => self.field(Scope::Message)?,
            }
        }
    }
    fn ranges(&mut self, en: bool) -> R {
        loop {
            if en {
                self.enum_number()?
            } else {
                self.field_number()?
            }
            if self.is_word("to") {
                self.i += 1;
                if self.is_word("max") {
                    self.i += 1;
                } else if en {
                    self.enum_number()?
                } else {
                    self.field_number()?
                }
            }
            if !self.is_sym(",") {
                return Ok(());
            }
            self.i += 1;
        }
    }
    fn reserved(&mut self, en: bool) -> R {
        self.word("reserved")?;
        if self.k() == Some(TK::Str) {
            loop {
                let v = self.string()?;
                let ok = !v.is_empty()
                    && !v[0].is_ascii_digit()
                    && v.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_');
                if !ok {
                    self.bad("reserved name");
                }
                if !self.is_sym(",") {
                    break;
                }
                self.i += 1;
            }
        } else {
            self.ranges(en)?;
        }
        self.sym(";")
    }
    fn oneof(&mut self) -> R {
        self.word("oneof")?;
        self.ident()?;
        self.sym("{")?;
        let mut n = 0;
        loop {
            if self.is_sym("}") {
                self.i += 1;
                if n == 0 {
                    self.bad("empty oneof");
                }
                return Ok(());
            }
            if self.is_sym(";") {
                self.i += 1;
            } else if self.is_word("option") {
                self.option()?;
            } else {
                self.field(Scope::Oneof)?;
                n += 1;
            }
        }
    }
    fn extend(&mut self) -> R {
        self.word("extend")?;
        self.type_name()?;
        self.sym("{")?;
        loop {
            if self.is_sym("}") {
                self.i += 1;
                return Ok(());
            }
            if self.is_sym(";") {
                self.i += 1;
                continue;
            }
            self.field(Scope::Extend)?;
        }
    }
    /// scalar name or ""
    fn field_type(&mut self) -> R<String> {
        if self.k() == Some(TK::Ident) && SCALARS.contains(&self.s()) {
            let s = self.ident()?;
            if self.is_sym(".") {
                self.unspec = true;
            }
            return Ok(s);
        }
        self.type_name()?;
        Ok(String::new())
    }
    fn field(&mut self, scope: Scope) -> R {
        if self.k() != Some(TK::Ident) && !self.is_sym(".") {
            return Err(self.i);
        }
        let mut label = String::new();
        if ["optional", "required", "repeated"].iter().any(|l| self.is_word(l)) {
            label = self.ident()?;
        }
        if self.is_word("map") {
            let next = self.t.get(self.i + 1);
            let is_type = next.is_some_and(|n| n.k == TK::Ident);
            if next.is_some_and(|n| n.k == TK::Sym && n.s == ".") {
                self.unspec = true;
            }
            if !is_type {
                self.i += 1;
                self.sym("<")?;
                let key = self.field_type()?;
                if matches!(key.as_str(), "" | "double" | "float" | "bytes") {
                    self.bad("map key");
                }
                self.sym(",")?;
                if self.is_word("group") {
                    self.unspec = true;
                }
                self.field_type()?;
                self.sym(">")?;
                if scope != Scope::Message || !label.is_empty() {
                    self.bad("map scope");
                }
                return self.rest(None, "");
            }
        }
        match (scope, label.as_str()) {
            (Scope::Extend, "required") => self.bad("required extension"),
            (Scope::Oneof, l) if !l.is_empty() => self.bad("label in oneof"),
            (Scope::Message | Scope::Extend, "") if !self.p3 => self.bad("no label"),
            (_, "required") if self.p3 => self.bad("required in proto3"),
            _ => {}
        }
        if self.is_word("group") {
            self.i += 1;
            let name = self.ident()?;
            if !name.as_bytes()[0].is_ascii_uppercase() {
                self.bad("group name");
            }
            if self.p3 {
                self.bad("group in proto3");
            }
            self.sym("=")?;
            self.field_number()?;
            if self.is_sym("[") {
                let l = self.option_list()?;
                self.field_options(l, None, &label);
            }
            self.sym("{")?;
            return self.body();
        }
        let ty = self.field_type()?;
        self.rest(Some(ty), &label)
    }
    fn rest(&mut self, ty: Option<String>, label: &str) -> R {
        self.ident()?;
        self.sym("=")?;
        self.field_number()?;
        if self.is_sym("[") {
            let l = self.option_list()?;
            self.field_options(l, ty, label);
        }
        self.sym(";")
    }
    /// ty: None for map and group
    fn field_options(&mut self, l: Vec<(Option<String>, Val)>, ty: Option<String>, label: &str) {
        for key in ["default", "json_name"] {
            if l.iter().filter(|o| o.0.as_deref() == Some(key)).count() > 1 {
                self.unspec = true;
            }
        }
        for (name, v) in l {
            match name.as_deref() {
                Some("default") => {
                    if ty.is_none() || label == "repeated" || self.p3 {
                        self.bad("default not allowed");
                    }
                    let Some(ty) = &ty else { continue };
                    let range = |lo: i128, hi: i128| match &v {
                        Val::Int(neg, n) => {
                            let x = if *neg { -(*n as i128) } else { *n as i128 };
                            lo <= x && x <= hi
                        }
                        _ => false,
                    };
                    let ok = match ty.as_str() {
                        "" => {
                            if !matches!(v, Val::Ident(false, _)) {
                                self.unspec = true;
                            }
                            true
                        }
                        "double" | "float" => match &v {
                            Val::Ident(_, s) => s == "inf" || s == "nan",
                            Val::Int(..) | Val::Float => true,
                            _ => false,
                        },
                        "bool" => matches!(&v, Val::Ident(false, s) if s == "true" || s == "false"),
                        "string" => matches!(&v, Val::Str(b) if std::str::from_utf8(b).is_ok()),
                        "bytes" => matches!(&v, Val::Str(_)),
                        "int32" | "sint32" | "sfixed32" => range(i32::MIN as i128, i32::MAX as i128),
                        "int64" | "sint64" | "sfixed64" => range(i64::MIN as i128, i64::MAX as i128),
                        "uint32" | "fixed32" => range(0, u32::MAX as i128),
                        _ => range(0, u64::MAX as i128),
                    };
                    if !ok {
                        self.bad("default value");
                    }
                }
                Some("json_name") => {
                    if !matches!(&v, Val::Str(b) if std::str::from_utf8(b).is_ok()) {
                        self.bad("json_name");
                    }
                }
                _ => self.plain_value(&v),
            }
        }
    }

    fn enum_(&mut self) -> R {
        self.word("enum")?;
        self.ident()?;
        self.sym("{")?;
        loop {
            if self.is_sym("}") {
                self.i += 1;
                return Ok(());
            }
            if self.is_sym(";") {
                self.i += 1;
                continue;
            }
            let next_eq = self.t.get(self.i + 1).is_some_and(|n| n.s == "=");
            if self.is_word("option") || self.is_word("reserved") {
                if next_eq {
                    // an enum value of that name, by the specification's grammar
                    self.unspec = true;
                }
                if self.is_word("option") {
                    self.option()?;
                } else {
                    self.reserved(true)?;
                }
                continue;
            }
            self.ident()?;
            self.sym("=")?;
            self.enum_number()?;
            self.plain_list()?;
            self.sym(";")?;
        }
    }
    fn service(&mut self) -> R {
        self.word("service")?;
        self.ident()?;
        self.sym("{")?;
        loop {
            if self.is_sym("}") {
                self.i += 1;
                return Ok(());
            }
            if self.is_sym(";") {
                self.i += 1;
            } else if self.is_word("option") {
                self.option()?;
            } else {
                self.rpc()?;
            }
        }
    }
    fn rpc(&mut self) -> R {
        self.word("rpc")?;
        self.ident()?;
        self.rpc_type()?;
        self.word("returns")?;
        self.rpc_type()?;
        if self.is_sym("{") {
            self.i += 1;
            loop {
                if self.is_sym("}") {
                    self.i += 1;
                    return Ok(());
                }
                if self.is_sym(";") {
                    self.i += 1;
                } else {
                    self.option()?;
                }
            }
        }
        self.sym(";")
    }
    fn rpc_type(&mut self) -> R {
        self.sym("(")?;
        if self.is_word("stream") {
            self.i += 1;
        }
        self.type_name()?;
        self.sym(")")
    }
}
