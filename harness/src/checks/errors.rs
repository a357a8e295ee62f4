//! C15 (file-local rule violations) and C02 (error locations).
use super::structural::parse;
use super::*;
use crate::gen::*;
use crate::layout::*;
use miette::Diagnostic;
use protox_parse::ParseError;

/// One error as observable through the public interface.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub msg: String,
    pub debug: Option<String>,
    /// (start, end, label text) of every label
    pub labels: Vec<(usize, usize, String)>,
    pub help: Option<String>,
}

fn obs(d: &dyn Diagnostic, debug: Option<String>) -> Obs {
    Obs {
        msg: d.to_string(),
        debug,
        labels: d
            .labels()
            .map(|l| {
                l.map(|s| (s.offset(), s.offset() + s.len(), s.label().unwrap_or("").to_string())).collect()
            })
            .unwrap_or_default(),
        help: d.help().map(|h| h.to_string()),
    }
}
/// The error itself followed by its related ones.
pub fn collect(e: &ParseError) -> Vec<Obs> {
    let mut v = vec![obs(e, Some(format!("{e:?}")))];
    fn rec(d: &dyn Diagnostic, v: &mut Vec<Obs>) {
        if let Some(r) = d.related() {
            for x in r {
                v.push(obs(x, None));
                rec(x, v);
            }
        }
    }
    rec(e, &mut v);
    v
}

pub fn c15(c: &mut Case) -> Result<(), Fail> {
    let mut cfg = Cfg { lit: 15, ..Cfg::default() };
    cfg.viol = if c.t.pct(75) { VStage::Gen } else { VStage::Parse };
    cfg.viol_pct = *c.t.pick(&[4, 8, 16, 40]);
    cfg.max_viol = *c.t.pick(&[1, 2, 4, 8]);
    if c.t.pct(3) {
        // many violations
        cfg.viol_pct = *c.t.pick(&[40, 80]);
        cfg.max_viol = 500;
        cfg.decls = 14;
    }
    match c.t.below(4) {
        0 => {
            cfg.ranges = 50;
        }
        1 => {
            cfg.opt = 40;
            cfg.defaults = 50;
        }
        2 => {
            cfg.sugar = 80;
        }
        _ => {}
    }
    if cfg.viol == VStage::Parse && c.t.pct(50) {
        cfg.ranges = 60;
    }
    let name = super::file_name(c.t);
    let g = generate(c.t, cfg, name);
    let st = *c.t.pick(&[Style::Plain, Style::Ws, Style::Comments]);
    let r = render(c.t, &g.toks, st);
    c.sample = Some(r.src.clone());
    c.key = hash_of(&r.src);
    c.nontrivial = !g.viols.is_empty();
    for v in &g.viols {
        c.label(v.class);
    }
    c.label_if(g.viols.len() > 1, "several violations");
    c.label_if(g.viols.len() > 20, "more than twenty violations");
    let res = parse(name, &r.src)?;
    let e = match (res, g.viols.is_empty()) {
        (Ok(_), true) => return Ok(()),
        (Err(e), true) => return fail("rejected valid file", format!("{e:?}")).with("source.proto", &r.src),
        (Ok(_), false) => {
            return fail(
                format!("not reported: {}", g.viols[0].class),
                format!("file accepted although it contains {:?}", g.viols),
            )
            .with("source.proto", &r.src)
        }
        (Err(e), false) => e,
    };
    let got = subject("reading the error", || collect(&e)).with("source.proto", &r.src)?;
    let mut rest: Vec<&Obs> = got.iter().collect();
    for v in &g.viols {
        let mut want = vec![(r.pos[v.a].0, r.pos[v.b].1)];
        if let Some((a, b)) = v.two {
            want.push((r.pos[a].0, r.pos[b].1));
        }
        want.sort();
        let hit = rest.iter().position(|o| {
            let mut l: Vec<_> = o.labels.iter().map(|x| (x.0, x.1)).collect();
            l.sort();
            l == want && o.msg.to_lowercase().contains(v.msg)
        });
        match hit {
            Some(i) => {
                rest.remove(i);
            }
            None => {
                return fail(
                    format!("not reported: {}", v.class),
                    format!("no error for {} at {:?} ({:?}); errors: {got:#?}", v.class, want, &r.src[want[0].0..want[0].1]),
                )
                .with("source.proto", &r.src)
            }
        }
    }
    if !rest.is_empty() {
        return fail("additional error", format!("errors without a violation: {rest:#?}\nviolations {:?}", g.viols))
            .with("source.proto", &r.src);
    }
    Ok(())
}

pub fn run_c15(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C15",
        rule: "a case is one generated file into which up to 8 violations of file-local rules are injected while it is drawn; the reported errors must be in bijection with the violations (labels equal to the offending tokens, message of the rule); non-trivial: at least one violation",
        cases: ctx.scale(1_500_000, 24_000_000),
        assumptions: vec![],
        f: &c15,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}

// ------------------------------------------------------------------------------------- C02

/// 1-based line and byte column; LF, CR and CRLF each end a line
pub fn ref_line_col(src: &[u8], off: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    let mut i = 0;
    while i < off {
        match src[i] {
            b'\r' if src.get(i + 1) == Some(&b'\n') && i + 1 < off => {
                i += 1;
                line += 1;
                col = 1;
            }
            b'\r' | b'\n' => {
                line += 1;
                col = 1;
            }
            _ => col += 1,
        }
        i += 1;
    }
    (line, col)
}

fn is_word(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !s.as_bytes()[0].is_ascii_digit()
}
fn is_punct(s: &str) -> bool {
    s.len() == 1 && "{}[]()<>;:,=.-+/".contains(s)
}

pub fn c02(c: &mut Case) -> Result<(), Fail> {
    let mut labels = vec![];
    let src = crate::fuzzgen::text(c.t, &mut labels);
    let name = super::file_name(c.t);
    let r = (|| {
        c.key = hash_of(&src);
        c.sample = Some(src.clone());
        for l in &labels {
            c.label(l);
        }
        let e = match parse(name, &src)? {
            Ok(_) => {
                c.label("accepted");
                return Ok(());
            }
            Err(e) => e,
        };
        c.nontrivial = true;
        let got = subject("reading the error", || collect(&e))?;
        c.label_if(got.len() > 1, "several errors");
        if e.file() != name {
            return fail("wrong file", format!("file() is {:?}, the file is {name:?}", e.file()));
        }
        let sc = match e.source_code() {
            Some(s) => s,
            None => return fail("no source", "the error carries no source code"),
        };
        let whole = subject("reading the source", || {
            sc.read_span(&(0, src.len()).into(), 0, 0).map(|s| (s.name().map(str::to_string), s.data().to_vec())).ok()
        })?;
        match whole {
            Some((n, d)) if n.as_deref() == Some(name) && d == src.as_bytes() => {}
            Some((n, _)) => return fail("wrong source", format!("the source code attached to the error differs, name {n:?}")),
            None => return fail("wrong source", "the source attached to the error cannot be read in full"),
        }
        for o in &got {
            for (a, b, l) in &o.labels {
                if a > b || *b > src.len() || !src.is_char_boundary(*a) || !src.is_char_boundary(*b) {
                    return fail("bad label", format!("label {l:?} of {:?} has the range {a}..{b} in a source of {} bytes", o.msg, src.len()));
                }
                if a == b {
                    return fail("empty label", format!("label {l:?} of {:?} is empty at {a}", o.msg));
                }
            }
            // the text quoted in "but found 'x'" is what stands at the label
            if let (Some(p), [(a, b, _)]) = (o.msg.rfind(", but found '"), &o.labels[..]) {
                let at = &src[*a..*b];
                let found = o.msg[p + ", but found '".len()..].strip_suffix('\'').unwrap_or("");
                if o.msg.starts_with("expected ") && !o.msg.starts_with("expected value") && (is_word(at) || is_punct(at)) && at != found {
                    return fail("found text", format!("{:?} but the source there is {at:?}", o.msg));
                }
            }
        }
        let first = &got[0];
        match e.span() {
            Some(s) => {
                if s.start > s.end || s.end > src.len() || !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
                    return fail("bad span", format!("span {s:?} in a source of {} bytes", src.len()));
                }
                if !first.labels.iter().any(|l| (l.0, l.1) == (s.start, s.end)) {
                    return fail("span is no label", format!("span {s:?}, labels {:?}", first.labels));
                }
                let debug = first.debug.as_ref().unwrap();
                let b = src.as_bytes();
                let in_crlf = s.start > 0 && b[s.start - 1] == b'\r' && b[s.start..].first() == Some(&b'\n');
                if !in_crlf {
                    let (l, col) = ref_line_col(b, s.start);
                    let want = format!("{name}:{l}:{col}: {}", first.msg);
                    if *debug != want {
                        return fail("debug text", format!("debug text {debug:?}\nexpected   {want:?}"));
                    }
                } else {
                    c.label("span inside CRLF");
                }
            }
            None => {
                c.label("no span");
                if first.labels.len() == 1 {
                    return fail("label without span", format!("{first:?}"));
                }
                if !first.debug.as_ref().unwrap().ends_with(&first.msg) {
                    return fail("debug text", format!("{first:?}"));
                }
            }
        }
        // the same input gives the same errors
        match parse(name, &src)? {
            Ok(_) => return fail("not deterministic", "rejected, then accepted"),
            Err(e2) => {
                let got2 = subject("reading the error", || collect(&e2))?;
                if got2 != got {
                    return fail("not deterministic", format!("first {got:#?}\nthen {got2:#?}"));
                }
            }
        }
        // text put in front moves every location by its length
        let pre = *c.t.pick(&["\n", "  ", "// é\n", "/* x\n */ ", "\r\n\t", "\n\n\n", "// a\r\n// b\r\n"]);
        let shifted = format!("{pre}{src}");
        match parse(name, &shifted)? {
            Ok(_) => return fail("prefix changes verdict", format!("accepted after putting {pre:?} in front")),
            Err(e2) => {
                let got2 = subject("reading the error", || collect(&e2))?;
                let norm = |v: &[Obs], d: usize| -> Vec<(String, Vec<(usize, usize, String)>)> {
                    v.iter()
                        .map(|o| (o.msg.clone(), o.labels.iter().map(|l| (l.0 + d, l.1 + d, l.2.clone())).collect()))
                        .collect()
                };
                if norm(&got, pre.len()) != norm(&got2, 0) {
                    return fail("prefix changes errors", format!("prefix {pre:?}: before {got:#?}\nafter {got2:#?}"));
                }
            }
        }
        c.evals = 3;
        Ok(())
    })();
    r.with("source.proto", &src)
}

pub fn run_c02(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C02",
        rule: "a case is one source text (a generated file with rule violations and/or token and character edits, or a soup) and the errors it yields; non-trivial: the text is rejected",
        cases: ctx.scale(1_500_000, 24_000_000),
        assumptions: vec!["line and column as documented by miette: 1-based here, byte columns, LF, CR and CRLF end a line"],
        f: &c02,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}
