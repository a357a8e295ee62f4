//! C13: one malformed token in an otherwise valid file.
use super::errors::collect;
use super::structural::parse;
use super::*;
use crate::gen::*;
use crate::layout::*;

/// Is the string at token i one that must be text?  Returns the range of adjacent string tokens.
fn text_string(toks: &[Tok], i: usize) -> bool {
    let s = |k: usize| toks.get(k).map(|t| t.s.as_str()).unwrap_or("");
    if toks[i].agg || i == 0 {
        return false;
    }
    // first piece of the literal
    let mut a = i;
    while a > 0 && toks[a - 1].k == TK::Str {
        a -= 1;
    }
    if a == 0 {
        return false;
    }
    let p = s(a - 1);
    if p == "import" || p == "public" || p == "weak" {
        return a < 2 || p == "import" || s(a - 2) == "import";
    }
    if p == "reserved" {
        return true;
    }
    if p == "=" && a >= 2 && s(a - 2) == "syntax" && a == 2 {
        return true;
    }
    if p == "=" && a >= 3 && (s(a - 2) == "json_name" || s(a - 2) == "default") && matches!(s(a - 3), "[" | ",") {
        let key = s(a - 2).to_string();
        // only the first one of its list, and only in the list of a field
        let mut j = a - 3;
        loop {
            if toks[j].agg {
                return false;
            }
            if s(j) == "[" {
                break;
            }
            if j == 0 || matches!(s(j), ";" | "{" | "}") {
                return false;
            }
            if s(j) == key {
                return false;
            }
            j -= 1;
        }
        if j < 4 || toks[j - 1].k != TK::Int || s(j - 2) != "=" || toks[j - 3].k != TK::Ident {
            return false;
        }
        let ty = &toks[j - 4];
        if key == "json_name" {
            return ty.k == TK::Ident || ty.s == ">";
        }
        return ty.k == TK::Ident && ty.s == "string" && j >= 5 && matches!(s(j - 5), "optional" | "required" | "{" | ";" | "}");
    }
    false
}

pub fn c13(c: &mut Case) -> Result<(), Fail> {
    let mut cfg = Cfg { lit: 25, opt: 20, agg: 35, ..Cfg::default() };
    if c.t.pct(30) {
        cfg.ranges = 40;
    }
    if c.t.pct(30) {
        cfg.defaults = 60;
    }
    let name = super::file_name(c.t);
    let g = generate(c.t, cfg, name);
    let style = *c.t.pick(&[Style::Plain, Style::Ws, Style::Comments]);
    let mut r = render(c.t, &g.toks, style);
    let toks = &g.toks;
    let n = toks.len();
    let with = |k: &dyn Fn(&Tok) -> bool| -> Vec<usize> { (0..n).filter(|i| k(&toks[*i])).collect() };
    let strs = with(&|t| t.k == TK::Str);
    let ints = with(&|t| t.k == TK::Int);
    let floats = with(&|t| t.k == TK::Float && !t.agg);
    let plain_ints = with(&|t| t.k == TK::Int && !t.agg);
    let texts: Vec<usize> = strs.iter().copied().filter(|i| text_string(toks, *i)).collect();
    let class = c.t.below(12);
    let t = &mut *c.t;
    // what replaces which byte range, and which part of the replacement is malformed
    let mut truncate = false;
    let (class, at, to, text, bad): (&str, usize, usize, String, std::ops::Range<usize>) = match class {
        0 if !strs.is_empty() => {
            let i = *t.pick(&strs);
            let (a, b) = r.pos[i];
            let s = &r.src[a..b];
            let cuts: Vec<usize> = piece_boundaries(s);
            let at = a + *t.pick(&cuts);
            let e = *t.pick(&[
                "\\q", "\\x", "\\xg", "\\u12", "\\u123g", "\\ud800", "\\udfff", "\\U00110000", "\\U0000d800", "\\U1234567", "\\8", "\\9", "\\400",
                "\\777", "\\é", "\\ ", "\\z", "\\uD83D", "\\Uffffffff", "\\c", "\\N", "\\\u{1f600}", "\\-", "\\/",
            ]);
            let e = match t.below(6) {
                0 => format!("\\u{:04x}", 0xd800 + t.below(0x800)),
                1 => format!("\\U{:08X}", if t.pct(50) { 0x110000 + t.below(0xef0000) as u32 } else { 0x110000u32.max(t.u32()) }),
                2 => format!("\\{:o}", 0o400 + t.below(0o400)),
                3 => {
                    let ch = crate::fuzzgen::any_char(t);
                    if "abfnrtvxXuU\\'\"?01234567\n\0".contains(ch) {
                        return Ok(());
                    }
                    format!("\\{ch}")
                }
                _ => e.to_string(),
            };
            // keep what follows from completing the escape
            let text = if e.starts_with("\\x") || e.starts_with("\\u1") || e.starts_with("\\U1") { format!("{e} ") } else { e.to_string() };
            let text = text.replace("\\xg ", "\\xg");
            let d = (b - at) + text.len();
            ("bad escape", at, at, text, (0usize.wrapping_sub(at - a))..d)
        }
        1 if !strs.is_empty() => {
            let i = *t.pick(&strs);
            let (a, b) = r.pos[i];
            let at = a + *t.pick(&piece_boundaries(&r.src[a..b]));
            let text = *t.pick(&["\n", "\0", "\n", "\r\n", "\0\0"]);
            ("raw control character", at, at, text.to_string(), 0usize.wrapping_sub(at - a)..(b - at) + text.len())
        }
        2 if !strs.is_empty() => {
            // the closing quote is missing and the line or file ends there
            let i = *t.pick(&strs);
            let (a, b) = r.pos[i];
            truncate = t.pct(50);
            let text = if truncate { "" } else { "\n" };
            ("unterminated string", b - 1, b, text.to_string(), 0usize.wrapping_sub(b - 1 - a)..text.len())
        }
        3 => {
            let i = t.below(n + 1);
            let at = if i < n { r.pos[i].0 } else { r.src.len() };
            let at = if i == n { n.checked_sub(1).map_or(0, |k| r.pos[k].1) } else { at };
            truncate = true;
            let text = t.pick(&["/*", "/* a", "/* a\n * b\n", "/**", "/* é", "/* * /", "/*/"]).to_string();
            let sep = if i > 0 && toks[i - 1].s == "/" { " " } else { "" };
            let l = text.len() + sep.len();
            ("unterminated comment", at, at, format!("{sep}{text}"), 0..l)
        }
        4 => {
            let i = t.below(n + 1);
            let (at, pre) = if i < n { (r.pos[i].0, "") } else { (n.checked_sub(1).map_or(0, |k| r.pos[k].1), "") };
            let sep = if i > 0 && toks[i - 1].s == "/" { " " } else { pre };
            let text = t.pick(&["/* a /* b */ c */", "/*/**/*/", "/* /* */ */", "/*\n/* a */\n*/", "/* /* /* */ */ */", "/* a /* b */"]).to_string();
            let l = text.len() + sep.len();
            ("nested comment", at, at, format!("{sep}{text}"), 0..l)
        }
        5 if !ints.is_empty() => {
            let i = *t.pick(&ints);
            let (a, b) = r.pos[i];
            let v = (1u128 << 64) + *t.pick(&[0u128, 1, 9, 1 << 40, 1 << 64, (1 << 127) - 1]);
            let text = match t.below(4) {
                0 => format!("{v}"),
                1 => format!("0x{v:x}"),
                2 => format!("0{v:o}"),
                _ => format!("{v}{}", "0".repeat(1 + t.below(40))),
            };
            let l = text.len();
            ("integer too large", a, b, text, 0..l)
        }
        6 if !ints.is_empty() => {
            let i = *t.pick(&ints);
            let (a, b) = r.pos[i];
            let text = if t.pct(50) {
                // digits of some base, then a word which cannot continue them
                let (num, not) = match t.below(4) {
                    0 => (format!("{}", 1 + t.u64() % 100_000), "eEfF"),
                    1 => ("0".to_string(), "xXeEfF"),
                    2 => (format!("0{:o}", t.below(512)), "eEfF"),
                    _ => (format!("0{}{:x}", if t.pct(50) { 'x' } else { 'X' }, t.u64() >> t.below(64)), "abcdefABCDEF"),
                };
                let word: &[u8] = b"_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
                let ch = *t.pick(word) as char;
                let ch = if not.contains(ch) { '_' } else { ch };
                let more: String = (0..t.below(4)).map(|_| *t.pick(b"_aeEfFxz019to") as char).collect();
                format!("{num}{ch}{more}")
            } else if toks[i].agg || t.pct(50) {
                t.pick(&["08", "09", "018", "0778", "00009", "0b1", "0x", "0X", "0xg", "0x1g", "1_000", "12abc", "0a", "1e", "1E", "12_", "0xz", "7M", "1e+", "07a", "1x0", "0o7"]).to_string()
            } else {
                format!("{}{}", &r.src[a..b], t.pick(&["M", "_", "x", "g1", "message", "__", "z9"]))
            };
            let l = text.len();
            ("glued digits", a, b, text, 0..l)
        }
        7 if !texts.is_empty() => {
            let i = *t.pick(&texts);
            let (a, b) = r.pos[i];
            let cuts: Vec<usize> = piece_boundaries(&r.src[a..b]);
            let at = a + *t.pick(&cuts);
            let text = t.pick(&["\\xff", "\\xFE", "\\377", "\\xc0", "\\301", "\\xf5"]).to_string();
            let (mut x, mut y) = (i, i);
            while x > 0 && toks[x - 1].k == TK::Str {
                x -= 1;
            }
            while y + 1 < n && toks[y + 1].k == TK::Str {
                y += 1;
            }
            let l = text.len();
            ("invalid UTF-8", at, at, text, 0usize.wrapping_sub(at - r.pos[x].0)..(r.pos[y].1 - at) + l)
        }
        8 => {
            let i = t.below(n + 1);
            let at = if i < n { r.pos[i].0 } else { n.checked_sub(1).map_or(0, |k| r.pos[k].1) };
            let ch = *t.pick(&['@', '$', '%', '&', '!', '?', '|', '~', '^', '`', 'é', '\0', '\u{1}', '\u{7f}', '\u{a0}', '\u{85}', '\u{2028}', '中', '😀', '\\', '*']);
            if ch == '*' && i > 0 && toks[i - 1].s == "/" {
                return Ok(());
            }
            ("stray character", at, at, ch.to_string(), 0..ch.len_utf8())
        }
        9 => {
            let spots: Vec<usize> = (0..=n).filter(|i| toks.get(*i).is_none_or(|k| !k.agg)).collect();
            let i = *t.pick(&spots);
            let at = if i < n { r.pos[i].0 } else { n.checked_sub(1).map_or(0, |k| r.pos[k].1) };
            let text = t.pick(&["#\n", "# a\n", "# \"\n", "#é\r\n", "#*/\n", "##\n", "#"]).to_string();
            if text == "#" && i < n {
                return Ok(());
            }
            let l = text.len();
            ("hash comment", at, at, text, 0..l)
        }
        10 if !floats.is_empty() || !plain_ints.is_empty() => {
            let i = if !floats.is_empty() && (plain_ints.is_empty() || t.pct(60)) { *t.pick(&floats) } else { *t.pick(&plain_ints) };
            let (_, b) = r.pos[i];
            let a = r.pos[i].0;
            let s = &r.src[a..b];
            if s.starts_with("0x") || s.starts_with("0X") {
                return Ok(());
            }
            ("f suffix", b, b, t.pick(&["f", "F"]).to_string(), 0usize.wrapping_sub(b - a)..1)
        }
        11 if !floats.is_empty() => {
            let i = *t.pick(&floats);
            let (a, b) = r.pos[i];
            let s = &r.src[a..b];
            let text = t.pick(&["abc", "_", ".5", "e", "x1"]).to_string();
            if s.contains(['e', 'E']) && text == ".5" && s.ends_with('.') {
                return Ok(());
            }
            let l = text.len();
            ("glued float", b, b, text, 0usize.wrapping_sub(b - a)..l)
        }
        _ => return Ok(()),
    };
    let lo = at.wrapping_add(bad.start);
    let hi = at + bad.end;
    let tail = if truncate { String::new() } else { r.src[to..].to_string() };
    r.src.truncate(at);
    r.src.push_str(&text);
    r.src.push_str(&tail);
    let src = r.src;
    let hi = hi.min(src.len());
    c.label(class);
    c.nontrivial = true;
    c.key = hash_of(&src);
    c.sample = Some(src.clone());
    let e = match parse(name, &src)? {
        Err(e) => e,
        Ok(_) => {
            return fail(format!("accepted: {class}"), format!("accepted although it contains: {class} ({:?})", &src[lo..hi]))
                .with("source.proto", &src)
        }
    };
    let got = subject("reading the error", || collect(&e)).with("source.proto", &src)?;
    let first = &got[0];
    let eof_ok = class.starts_with("unterminated");
    let hit = if first.labels.is_empty() { eof_ok } else { first.labels.iter().any(|l| l.0 <= hi && l.1 >= lo) };
    if !hit {
        return fail(
            format!("elsewhere: {class}"),
            format!("{class}: {:?} at {lo}..{hi}, but the first error is {first:?}", &src[lo..hi]),
        )
        .with("source.proto", &src);
    }
    Ok(())
}

/// offsets inside a string literal at which something can be inserted without being part of an escape
fn piece_boundaries(s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 1;
    while i < b.len() - 1 {
        if v.last() != Some(&i) {
            v.push(i);
        }
        if b[i] == b'\\' {
            let hex = |from: usize, max: usize| (0..max).take_while(|k| b.get(from + k).is_some_and(|c| c.is_ascii_hexdigit())).count();
            i += match b[i + 1] {
                b'x' | b'X' => 2 + hex(i + 2, 2),
                b'u' => 6,
                b'U' => 10,
                b'0'..=b'7' => 1 + (0..3).take_while(|k| b.get(i + 1 + k).is_some_and(|c| (b'0'..=b'7').contains(c))).count(),
                _ => 2,
            };
        } else {
            i += 1;
            while !s.is_char_boundary(i) {
                i += 1;
            }
        }
    }
    v.push(b.len() - 1);
    v
}

pub fn run_c13(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C13",
        rule: "a case is one generated valid file into which one malformed token of a drawn class is put at a drawn place; it must be rejected with the first error at the token; non-trivial: a token was put in",
        cases: ctx.scale(2_500_000, 40_000_000),
        assumptions: vec![],
        f: &c13,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}
