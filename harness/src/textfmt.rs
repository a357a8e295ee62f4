//! Reference tokenizer for the text stored in `aggregate_value`.
#[derive(Clone, Debug, PartialEq)]
pub enum TF {
    Ident(String),
    Int(u64),
    Float(u64),
    Str(Vec<u8>),
    Sym(char),
}
impl TF {
    pub fn float(v: f64) -> TF {
        if v.is_infinite() && v > 0.0 {
            // text format has no literal for it; `inf` is its spelling
            TF::Ident("inf".into())
        } else {
            TF::Float(v.to_bits())
        }
    }
}
pub fn canon_tokens(t: &[TF]) -> String {
    let mut s = String::from("agg:");
    for x in t {
        match x {
            TF::Ident(i) => s.push_str(i),
            TF::Int(i) => s.push_str(&format!("i{i}i")),
            TF::Float(b) => s.push_str(&format!("f{:?}f", f64::from_bits(*b))),
            TF::Str(b) => s.push_str(&format!("\"{}\"", b.escape_ascii())),
            TF::Sym(c) => s.push(*c),
        }
        s.push(' ');
    }
    s
}
/// Tokenizes text format (identifiers, numbers, strings, punctuation).
pub fn tokenize(s: &str) -> Result<Vec<TF>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | 11 | 12 => i += 1,
            b'#' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1
                }
                out.push(TF::Ident(s[st..i].into()));
            }
            b'0'..=b'9' | b'.' if c != b'.' || b.get(i + 1).is_some_and(|d| d.is_ascii_digit()) => {
                let st = i;
                if c == b'0' && matches!(b.get(i + 1), Some(b'x' | b'X')) {
                    i += 2;
                    while i < b.len() && b[i].is_ascii_hexdigit() {
                        i += 1
                    }
                    out.push(TF::Int(u64::from_str_radix(&s[st + 2..i], 16).map_err(|e| e.to_string())?));
                    continue;
                }
                let mut fl = false;
                while i < b.len() {
                    match b[i] {
                        b'0'..=b'9' => i += 1,
                        b'.' => {
                            fl = true;
                            i += 1
                        }
                        b'e' | b'E' => {
                            fl = true;
                            i += 1;
                            if matches!(b.get(i), Some(b'+' | b'-')) {
                                i += 1
                            }
                        }
                        _ => break,
                    }
                }
                let t = &s[st..i];
                if matches!(b.get(i), Some(b'f' | b'F')) {
                    fl = true;
                    i += 1;
                }
                if fl {
                    out.push(TF::float(t.parse::<f64>().map_err(|e| format!("{t}: {e}"))?));
                } else if t.len() > 1 && t.starts_with('0') {
                    out.push(TF::Int(u64::from_str_radix(t, 8).map_err(|e| format!("{t}: {e}"))?));
                } else {
                    out.push(TF::Int(t.parse().map_err(|e| format!("{t}: {e}"))?));
                }
            }
            b'"' | b'\'' => {
                let q = c;
                i += 1;
                let st = i;
                while i < b.len() && b[i] != q {
                    if b[i] == b'\\' {
                        i += 1
                    }
                    i += 1;
                }
                if i >= b.len() {
                    return Err("unterminated string".into());
                }
                out.push(TF::Str(unescape(&b[st..i])?));
                i += 1;
            }
            b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b',' | b':' | b';' | b'-' | b'+' | b'.' | b'/' | b'(' | b')' | b'=' => {
                out.push(TF::Sym(c as char));
                i += 1
            }
            _ => return Err(format!("unexpected byte {c:#x} in {s:?}")),
        }
    }
    Ok(out)
}
/// C-style unescape (as used for text-format strings and for bytes defaults)
pub fn unescape(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        let c = *b.get(i).ok_or("trailing backslash")?;
        i += 1;
        match c {
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'v' => out.push(11),
            b'?' | b'\\' | b'\'' | b'"' => out.push(c),
            b'x' | b'X' => {
                let mut v = 0u32;
                let mut n = 0;
                while n < 2 && i < b.len() && b[i].is_ascii_hexdigit() {
                    v = v * 16 + (b[i] as char).to_digit(16).unwrap();
                    i += 1;
                    n += 1;
                }
                if n == 0 {
                    return Err("\\x without digits".into());
                }
                out.push(v as u8);
            }
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                let mut n = 1;
                while n < 3 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    n += 1;
                }
                if v > 255 {
                    return Err("octal escape too large".into());
                }
                out.push(v as u8);
            }
            b'u' | b'U' => {
                let n = if c == b'u' { 4 } else { 8 };
                let h = b.get(i..i + n).ok_or("short unicode escape")?;
                let h = std::str::from_utf8(h).map_err(|e| e.to_string())?;
                let v = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                let ch = char::from_u32(v).ok_or("bad code point")?;
                out.extend(ch.to_string().as_bytes());
                i += n;
            }
            _ => return Err(format!("bad escape \\{}", c as char)),
        }
    }
    Ok(out)
}
pub fn canon(s: &str) -> String {
    match tokenize(s) {
        Ok(t) => canon_tokens(&t),
        Err(e) => format!("unparsable text format ({e}): {s}"),
    }
}
