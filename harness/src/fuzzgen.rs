//! Arbitrary source texts: generated files, valid or not, damaged at the level of tokens or
//! characters, and soups of tokens, fragments and characters.
use crate::engine::Tape;
use crate::gen::*;
use crate::layout::*;

pub const FRAGMENTS: &[&str] = &[
    "message", "enum", "service", "rpc", "option", "optional", "required", "repeated", "extend", "extensions",
    "reserved", "oneof", "map", "group", "package", "import", "syntax", "stream", "returns", "to", "max", "public",
    "weak", "inf", "nan", "true", "false", "default", "json_name", "int32", "string", "bytes", "float", "M", "foo",
    "{", "}", "[", "]", "(", ")", "<", ">", ";", ":", ",", "=", ".", "-", "+", "/", "//", "/*", "*/", "#", "\"", "'",
    "\\", "\n", "\r\n", "\r", "\t", "\x0b", "\x0c", " ", "\0", "0", "1", "08", "018", "0x", "0xg", "1e", "1e+", "1f",
    "0f", "1.5f", ".5", "5.", "1.2.3", "12abc", "18446744073709551615", "18446744073709551616", "0x1ffffffffffffffff",
    "99999999999999999999999", "01777777777777777777777", "03777777777777777777777", "1e400", "\"a\"", "'b'", "\"\\x\"",
    "\"\\400\"", "\"\\377\"", "\"\\xff\"", "\"\\u12\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\U0010ffff\"", "\"a\nb\"",
    "\"\0\"", "\"\\q\"", "\"é\"", "\"\\é\"", "é", "中", "😀", "\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", "@", "$", "`", "%",
    "~", "!", "?", "|", "&", "^", "_", "__", "proto2", "\"proto2\"", "\"proto3\"", "\"proto4\"", "syntax = \"proto3\";",
    "syntax = 'proto2';", "package a.b;", "import \"x.proto\";", "import \"a//b\";", "message M { optional int32 a = 1; }",
    "optional group G = 1 {", "map<int32, string> m = 1;", "map<float,G> m = 0;", "extensions 1 to max;", "reserved 1 to 2, 5;",
    "reserved \"a\", \"1\";", "option (a).b = { c: 1 [d.e/f]: < g: 'h' > };", "[default = -1]", "[json_name = \"\\xff\"]",
    "oneof o {}", "oneof o { int32 a = 1; }", "enum E { A = 0; }", "enum E { A = -2147483649; }", "service S { rpc A(B) returns (stream C); }",
    "rpc A(.B) returns (C) { option a = 1; }", "extend .A { optional B c = 1; }", "= 0;", "= 536870912;", "= -1;",
];

pub fn soup(t: &mut Tape) -> String {
    let n = t.count(0, 60);
    let mut s = String::new();
    let sep = t.below(3);
    for _ in 0..n {
        s.push_str(t.pick(FRAGMENTS));
        if sep == 1 || (sep == 2 && t.pct(50)) {
            s.push(' ');
        }
    }
    s
}

pub fn any_char(t: &mut Tape) -> char {
    match t.below(6) {
        0 => (0x20 + t.below(0x5f) as u8) as char,
        1 => *t.pick(&['\n', '\r', '\t', '\0', '\x0b', '\x0c', '\x1b', '\x7f']),
        2 => *t.pick(&['"', '\'', '\\', '/', '*', '{', '}', ';', '.', '-', '0', '#']),
        3 => char::from_u32(0x80 + t.below(0x780) as u32).unwrap(),
        4 => char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        _ => *t.pick(&['é', '中', '😀', '\u{feff}', '\u{2028}', '\u{301}', '\u{85}', '\u{10ffff}']),
    }
}

pub fn chars(t: &mut Tape) -> String {
    let n = t.count(0, 40);
    (0..n).map(|_| any_char(t)).collect()
}

/// some token of any kind
pub fn any_tok(t: &mut Tape, agg: bool) -> Tok {
    let (k, s) = match t.below(7) {
        0 | 1 => (TK::Sym, t.pick(&["{", "}", "[", "]", "(", ")", "<", ">", ";", ":", ",", "=", ".", "-", "+", "/"]).to_string()),
        2 => (TK::Ident, t.pick(KEYWORDS).to_string()),
        3 => (TK::Ident, t.pick(&["foo", "Bar", "x", "_", "G"]).to_string()),
        4 => (TK::Int, t.pick(&["0", "1", "2", "5", "0x10", "017", "536870911", "536870912", "2147483647", "2147483648", "18446744073709551615"]).to_string()),
        5 => (TK::Float, t.pick(&["1.5", ".5", "1e3", "0.0", "5."]).to_string()),
        _ => (TK::Str, t.pick(&["\"a\"", "'b c'", "\"proto3\"", "\"x/y.proto\"", "\"\"", "'\\''", "\"\\xff\""]).to_string()),
    };
    Tok { k, s, agg }
}

/// One random edit of a token sequence; returns what it did.
pub fn edit_tokens(t: &mut Tape, toks: &mut Vec<Tok>) -> &'static str {
    let n = toks.len();
    if n == 0 {
        let x = any_tok(t, false);
        toks.push(x);
        return "insert";
    }
    let i = t.below(n);
    match t.below(8) {
        0 => {
            toks.remove(i);
            "delete"
        }
        1 => {
            let x = any_tok(t, toks[i].agg);
            toks.insert(i, x);
            "insert"
        }
        2 => {
            let x = toks[i].clone();
            toks.insert(i, x);
            "duplicate"
        }
        3 => {
            let x = any_tok(t, toks[i].agg);
            toks[i] = x;
            "replace"
        }
        4 => {
            let j = (i + 1).min(n - 1);
            toks.swap(i, j);
            "swap"
        }
        5 => {
            toks.truncate(i);
            "truncate"
        }
        6 => {
            // move or copy a slice somewhere else
            let len = t.range(1, 6).min(n - i);
            let piece: Vec<Tok> = toks[i..i + len].to_vec();
            if t.pct(50) {
                toks.drain(i..i + len);
            }
            let j = t.below(toks.len() + 1);
            toks.splice(j..j, piece);
            "splice"
        }
        _ => {
            // delete a slice
            let len = t.range(1, 8).min(n - i);
            toks.drain(i..i + len);
            "delete-slice"
        }
    }
}

pub fn char_positions(s: &str) -> Vec<usize> {
    s.char_indices().map(|(i, _)| i).chain(std::iter::once(s.len())).collect()
}

pub fn edit_chars(t: &mut Tape, s: &mut String) -> &'static str {
    let p = char_positions(s);
    let i = t.below(p.len());
    match t.below(5) {
        0 => {
            let c = any_char(t);
            s.insert(p[i], c);
            "char-insert"
        }
        1 => {
            let f = *t.pick(FRAGMENTS);
            s.insert_str(p[i], f);
            "fragment-insert"
        }
        2 => {
            let j = (i + t.range(1, 4)).min(p.len() - 1);
            s.replace_range(p[i]..p[j], "");
            "char-delete"
        }
        3 => {
            let j = (i + 1).min(p.len() - 1);
            let c = any_char(t).to_string();
            s.replace_range(p[i]..p[j], &c);
            "char-replace"
        }
        _ => {
            s.truncate(p[i]);
            "truncate-text"
        }
    }
}

/// An arbitrary source text; labels say how it came about.
pub fn text(t: &mut Tape, labels: &mut Vec<String>) -> String {
    let kind = t.weighted(&[70, 8, 6, 16]);
    match kind {
        1 => {
            labels.push("soup".into());
            return soup(t);
        }
        2 => {
            labels.push("characters".into());
            return chars(t);
        }
        3 => {
            // one construct with a fragment soup inside or after it
            labels.push("prefixed soup".into());
            let p = t.pick(&[
                "", "syntax = \"proto3\";\n", "message M {\n", "enum E {\n", "service S {\n", "message M { oneof o {\n", "extend M {\n",
                "option a = {\n", "message M { optional int32 a = 1 [\n", "message M { extensions ", "message M { reserved ", "import ", "option a = \"",
                "/* ", "// ", "message M { optional ", "service S { rpc a ", "é",
            ]);
            let mut s = p.to_string();
            s.push_str(&soup(t));
            return s;
        }
        _ => {}
    }
    let mut cfg = Cfg { lit: 30, opt: 15, ..Cfg::default() };
    cfg.viol = *t.pick(&[VStage::Gen, VStage::Parse, VStage::None]);
    cfg.viol_pct = *t.pick(&[10, 30]);
    let mut g = generate(t, cfg, "x");
    let mut edits = 0;
    if t.pct(50) {
        for _ in 0..t.count(1, 5) {
            labels.push(edit_tokens(t, &mut g.toks).into());
            edits += 1;
        }
    }
    let style = *t.pick(&[Style::Plain, Style::Ws, Style::Comments, Style::Decl]);
    let r = render(t, &g.toks, style);
    let mut s = r.src;
    if edits == 0 || t.pct(40) {
        for _ in 0..t.count(0, 6) {
            labels.push(edit_chars(t, &mut s).into());
        }
    }
    if t.pct(5) {
        s = s.replace('\n', "\r");
        labels.push("lone-cr".into());
    }
    s
}
