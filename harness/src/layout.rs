//! Rendering of token sequences to source text, and the reference comment-attachment model.
use crate::engine::Tape;
use crate::gen::*;
use prost_types::source_code_info::Location;

#[derive(Clone)]
pub struct Rendered {
    pub src: String,
    /// byte range of each token
    pub pos: Vec<(usize, usize)>,
    /// gaps[i] is the text before token i, gaps[n] the text after the last one
    pub gaps: Vec<String>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// single spaces, newline after ; { }
    Plain,
    /// random whitespace
    Ws,
    /// random whitespace and comments
    Comments,
    /// whitespace everywhere, comments biased to the gaps between declarations
    Decl,
}

pub fn need_sep(a: &Tok, b: &Tok) -> bool {
    let wa = a.k == TK::Ident || a.k == TK::Int || a.k == TK::Float;
    let wb = b.k == TK::Ident || b.k == TK::Int || b.k == TK::Float;
    if wa && wb {
        return true;
    }
    // a dot next to a digit would join a number
    if (a.s == "." && (b.k == TK::Int || b.k == TK::Float)) || (b.s == "." && (a.k == TK::Int || a.k == TK::Float)) {
        return true;
    }
    if a.s == "/" && (b.s == "/" || b.s == "*") {
        return true;
    }
    false
}

pub fn line_comment(t: &mut Tape, hash: bool, long: usize) -> String {
    let mut s = String::from(if hash && t.pct(50) { "#" } else { "//" });
    s.push_str(&comment_text(t, false, long));
    s
}
pub fn comment_text(t: &mut Tape, block: bool, long: usize) -> String {
    let n = t.count(0, 8).max(long);
    let mut s = String::new();
    for _ in 0..n {
        let p: &[&str] = if block {
            &[" a", "foo", " ", "\n", "*", "\"", "'", "{", "}", ";", "é", "\n * ", "\n\n", "//", "\t", "\\", "中", "😀", "message M {", "\n*", "\n  ", "/", "* ", "\n\t*x", "#", "\x0b", "\x0c", "\n\x0b", "\n \x0c* ", "\r", "\n\r*"]
        } else {
            &[" a", "foo", " ", "/", "*", "\"", "'", "{", "}", ";", "é", "//", "/*", "*/", "\t", "\\", "中", "😀", "message M {", "#", "\\n", "0x", "[", "]", "\x0b", "\x0c", "\r"]
        };
        s.push_str(*t.pick(p));
    }
    s
}
pub fn block_comment(t: &mut Tape, long: usize) -> String {
    let body = comment_text(t, true, long);
    let mut b = body.replace("*/", "* /").replace("/*", "/ *");
    if b.starts_with('/') {
        b.insert(0, ' ');
    }
    if b.ends_with('*') && t.pct(70) {
        b.push(' ');
    }
    if b.ends_with('/') {
        b.push(' ');
    }
    let s = format!("/*{b}*/");
    // the join must not create a nested opener or an early end
    debug_assert!(!s[2..s.len() - 2].contains("*/") && !s[2..].contains("/*"));
    s
}

/// one whitespace piece
fn ws(t: &mut Tape, crlf: bool) -> &'static str {
    match t.weighted(&[40, 25, 6, 3, 2, 2]) {
        0 => " ",
        1 => {
            if crlf {
                "\r\n"
            } else {
                "\n"
            }
        }
        2 => "\t",
        3 => "\r",
        4 => "\x0b",
        _ => "\x0c",
    }
}

pub fn gap(t: &mut Tape, style: Style, prev: Option<&Tok>, next: Option<&Tok>, crlf: bool, large: usize) -> String {
    let text_mode = next.is_some_and(|n| n.agg);
    let mut s = String::new();
    let mut long = 0;
    let mut pieces = 0;
    if large > 0 {
        match t.below(4) {
            0 => s.push_str(&ws(t, crlf).repeat(if t.pct(5) { 70_000 } else { large })),
            1 => long = large,
            _ => pieces = large,
        }
    }
    match style {
        Style::Plain => {
            if let (Some(p), Some(_)) = (prev, next) {
                s.push(if matches!(p.s.as_str(), ";" | "{" | "}") { '\n' } else { ' ' });
            }
            return s;
        }
        Style::Ws => {
            let n = t.count(0, 4).max(pieces);
            for _ in 0..n {
                s.push_str(ws(t, crlf));
            }
        }
        Style::Comments | Style::Decl => {
            let decl_gap = prev.is_none_or(|p| matches!(p.s.as_str(), ";" | "{" | "}")) && !text_mode;
            let (n, cw) = if style == Style::Decl {
                if decl_gap {
                    (t.count(0, 9), 40)
                } else {
                    (t.count(0, 2), 6)
                }
            } else {
                (t.count(0, 4), 30)
            };
            let n = n.max(pieces);
            for _ in 0..n {
                if long > 0 || t.pct(cw) {
                    if s.is_empty() && prev.is_some_and(|p| p.s == "/") {
                        s.push(' ');
                    }
                    if t.pct(50) {
                        s.push_str(&line_comment(t, text_mode, std::mem::take(&mut long)));
                        s.push_str(if crlf { "\r\n" } else { "\n" });
                    } else {
                        s.push_str(&block_comment(t, std::mem::take(&mut long)));
                    }
                } else {
                    s.push_str(ws(t, crlf));
                }
            }
        }
    }
    if s.is_empty() {
        if let (Some(p), Some(n)) = (prev, next) {
            if need_sep(p, n) {
                s.push(' ');
            }
        }
    }
    if next.is_none() && style != Style::Ws && t.pct(8) {
        // a line comment may end the file without newline
        if s.is_empty() && prev.is_some_and(|p| p.s == "/") {
            s.push(' ');
        }
        s.push_str(&line_comment(t, false, 0));
    }
    s
}

pub fn render(t: &mut Tape, toks: &[Tok], style: Style) -> Rendered {
    let crlf = t.pct(20);
    // now and then one gap is much larger than usual
    let large = if t.pct(4) { Some(t.below(toks.len() + 1)) } else { None };
    let mut gaps = vec![];
    for i in 0..=toks.len() {
        let prev = if i > 0 { Some(&toks[i - 1]) } else { None };
        let next = toks.get(i);
        let n = match large {
            Some(k) if k == i => big(t),
            _ => 0,
        };
        gaps.push(gap(t, style, prev, next, crlf, n));
    }
    assemble(toks, gaps)
}
pub fn assemble(toks: &[Tok], gaps: Vec<String>) -> Rendered {
    let mut src = String::new();
    let mut pos = vec![];
    for (i, tk) in toks.iter().enumerate() {
        src.push_str(&gaps[i]);
        let a = src.len();
        src.push_str(&tk.s);
        pos.push((a, src.len()));
    }
    src.push_str(&gaps[toks.len()]);
    Rendered { src, pos, gaps }
}

pub fn line_col(src: &str, off: usize) -> (i32, i32) {
    let line = src.as_bytes()[..off].iter().filter(|b| **b == b'\n').count();
    let start = src[..off].rfind('\n').map_or(0, |p| p + 1);
    (line as i32, (off - start) as i32)
}
pub fn span_of(src: &str, a: usize, b: usize) -> Vec<i32> {
    let (l1, c1) = line_col(src, a);
    let (l2, c2) = line_col(src, b);
    if l1 == l2 {
        vec![l1, c1, c2]
    } else {
        vec![l1, c1, l2, c2]
    }
}

pub fn expected_locations(locs: &[LocExp], toks: &[Tok], empties: &[usize], r: &Rendered, comments: bool) -> Vec<Location> {
    let attached = |i: usize| attach(i == 0, &r.gaps[i], toks.get(i).map(|t| t.s.as_str()));
    locs.iter()
        .filter(|l| l.a != usize::MAX)
        .map(|l| {
            let mut o = Location {
                path: l.path.clone(),
                span: span_of(&r.src, r.pos[l.a].0, r.pos[l.b].1),
                ..Default::default()
            };
            if let (true, Some((lead, end))) = (comments, l.com) {
                // detached comments are carried over empty statements
                let mut i = lead;
                let mut before = attached(i);
                while i > 0 && empties.contains(&(i - 1)) {
                    i -= 1;
                    let mut d = attached(i).detached;
                    d.append(&mut before.detached);
                    before.detached = d;
                }
                o.leading_comments = before.leading;
                o.leading_detached_comments = before.detached;
                o.trailing_comments = attached(end + 1).trailing;
            }
            o
        })
        .collect()
}

#[derive(Default, Debug, Clone, PartialEq)]
pub struct GapComments {
    pub trailing: Option<String>,
    pub detached: Vec<String>,
    pub leading: Option<String>,
}

/// The comment attachment rule of descriptor.proto / protoc (NextWithComments), on the text
/// between two tokens.  `next` is the text of the following token, None at end of file.
pub fn attach(start_of_file: bool, gap: &str, next: Option<&str>) -> GapComments {
    struct C {
        out: GapComments,
        buf: Option<(String, bool)>,
        prev_ok: bool,
    }
    impl C {
        fn flush(&mut self) {
            if let Some((s, _)) = self.buf.take() {
                if self.prev_ok {
                    self.out.trailing = Some(s);
                    self.prev_ok = false;
                } else {
                    self.out.detached.push(s);
                }
            }
        }
        fn line(&mut self, s: &str) {
            if matches!(self.buf, Some((_, false))) {
                self.flush();
            }
            match &mut self.buf {
                Some((b, _)) => b.push_str(s),
                None => self.buf = Some((s.to_string(), true)),
            }
        }
        fn block(&mut self, s: String) {
            self.flush();
            self.buf = Some((s, false));
        }
    }
    let b = gap.as_bytes();
    let mut i = 0;
    let mut c = C { out: GapComments::default(), buf: None, prev_ok: !start_of_file };
    let skip = |i: &mut usize| {
        while *i < b.len() && matches!(b[*i], b' ' | b'\t' | b'\r' | 11 | 12) {
            *i += 1
        }
    };
    let line_end = |i: usize| gap[i..].find('\n').map_or(gap.len(), |p| i + p + 1);
    if !start_of_file {
        skip(&mut i);
        if gap[i..].starts_with("//") {
            let e = line_end(i);
            c.line(&norm(&gap[i + 2..e]));
            c.flush();
            i = e;
        } else if gap[i..].starts_with("/*") {
            let e = i + 2 + gap[i + 2..].find("*/").unwrap();
            c.block(block_text(&gap[i + 2..e]));
            i = e + 2;
            skip(&mut i);
            if i < b.len() && b[i] == b'\n' {
                i += 1;
                c.flush();
            } else {
                // something else follows on the same line: unclear what the comment belongs to
                return GapComments::default();
            }
        } else if i < b.len() && b[i] == b'\n' {
            i += 1;
        } else {
            return GapComments::default();
        }
    }
    loop {
        skip(&mut i);
        if i < b.len() && gap[i..].starts_with("//") {
            let e = line_end(i);
            c.line(&norm(&gap[i + 2..e]));
            i = e;
        } else if i < b.len() && gap[i..].starts_with("/*") {
            let e = i + 2 + gap[i + 2..].find("*/").unwrap();
            c.block(block_text(&gap[i + 2..e]));
            i = e + 2;
            skip(&mut i);
            if i < b.len() && b[i] == b'\n' {
                i += 1;
            }
        } else if i < b.len() && b[i] == b'\n' {
            i += 1;
            c.flush();
            c.prev_ok = false;
        } else {
            debug_assert!(i == b.len(), "{gap:?} at {i}");
            if matches!(next, None | Some("}" | "]" | ")")) {
                c.flush();
            }
            if let Some((s, _)) = c.buf.take() {
                c.out.leading = Some(s);
            }
            return c.out;
        }
    }
}
fn norm(s: &str) -> String {
    s.replace("\r\n", "\n")
}
/// content of a block comment: leading whitespace and one asterisk removed from continuation lines
pub fn block_text(s: &str) -> String {
    let mut out = String::new();
    for (k, line) in s.split('\n').enumerate() {
        if k == 0 {
            out.push_str(line);
            continue;
        }
        out.push('\n');
        let l = line.trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);
        out.push_str(l.strip_prefix('*').unwrap_or(l));
    }
    norm(&out)
}
