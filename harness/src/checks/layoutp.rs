//! C10 (layout invariance), C11 (source locations), C12 (comments).
use super::structural::{expect_ok, parse, same};
use super::*;
use crate::cmp;
use crate::gen::*;
use crate::layout::*;
use prost::Message;
use prost_types::source_code_info::Location;
use prost_types::FileDescriptorProto;

fn style(t: &mut Tape) -> Style {
    *t.pick(&[Style::Plain, Style::Ws, Style::Comments, Style::Decl])
}

/// The same literal values spelled differently (integers outside and inside aggregates, strings).
fn respell(t: &mut Tape, toks: &[Tok]) -> Vec<Tok> {
    let mut g = G::new(t, Cfg { lit: 60, ..Cfg::default() });
    for k in toks {
        g.in_agg = k.agg;
        match k.k {
            TK::Int if g.t.pct(50) => {
                let v = int_value(&k.s);
                g.int(v);
            }
            TK::Str if g.t.pct(50) => {
                let v = crate::textfmt::unescape(&k.s.as_bytes()[1..k.s.len() - 1]).expect("generated literal");
                if g.in_agg {
                    // pieces of an aggregate are kept apart, so no splitting there
                    let s = g.string_text(&v);
                    g.tok(TK::Str, &s);
                } else {
                    g.string(&v);
                }
            }
            _ => g.toks.push(k.clone()),
        }
    }
    g.toks
}
pub fn int_value(s: &str) -> u64 {
    if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        u64::from_str_radix(h, 16).unwrap()
    } else if s.len() > 1 && s.starts_with('0') {
        u64::from_str_radix(s, 8).unwrap()
    } else {
        s.parse().unwrap()
    }
}

fn split(mut f: FileDescriptorProto) -> (FileDescriptorProto, Vec<Location>) {
    let l = f.source_code_info.take().map(|s| s.location).unwrap_or_default();
    (f, l)
}

fn concat(a: &FileDescriptorProto, b: &FileDescriptorProto) -> FileDescriptorProto {
    let mut r = a.clone();
    let n = r.dependency.len() as i32;
    r.dependency.extend(b.dependency.iter().cloned());
    r.public_dependency.extend(b.public_dependency.iter().map(|x| x + n));
    r.weak_dependency.extend(b.weak_dependency.iter().map(|x| x + n));
    r.message_type.extend(b.message_type.iter().cloned());
    r.enum_type.extend(b.enum_type.iter().cloned());
    r.service.extend(b.service.iter().cloned());
    r.extension.extend(b.extension.iter().cloned());
    if let Some(o) = &b.options {
        r.options
            .get_or_insert_with(Default::default)
            .uninterpreted_option
            .extend(o.uninterpreted_option.iter().cloned());
    }
    if b.package.is_some() {
        r.package = b.package.clone();
    }
    r
}

pub fn c10(c: &mut Case) -> Result<(), Fail> {
    let mut cfg = Cfg { lit: 35, empties: 0, ..Cfg::default() };
    let mode = c.t.weighted(&[40, 25, 25, 10]);
    if mode == 2 {
        cfg.viol = *c.t.pick(&[VStage::Gen, VStage::Parse]);
        cfg.viol_pct = 6;
    }
    let p3 = c.t.pct(50);
    if mode == 1 {
        cfg.syntax = Some(p3);
    }
    let name = super::file_name(c.t);
    let g = generate(c.t, cfg.clone(), name);
    let s1 = style(c.t);
    let r1 = render(c.t, &g.toks, s1);
    g.label(c);
    c.nontrivial = g.toks.len() >= 12;
    c.evals = 2;
    match mode {
        0 | 3 => {
            // independent layout, maybe respelled literals, maybe empty statements, maybe other name
            let re = c.t.pct(50);
            let mut toks = if re { respell(c.t, &g.toks) } else { g.toks.clone() };
            let mut added = false;
            if c.t.pct(40) {
                toks = add_empty(c.t, toks);
                added = true;
            }
            let s2 = style(c.t);
            let r2 = render(c.t, &toks, s2);
            let name2 = match mode {
                3 if name != "dir/file.proto" => "dir/file.proto",
                3 => *c.t.pick(&["other name.txt", "google/protobuf/other.proto"]),
                _ => name,
            };
            c.sample = Some(format!("--- A\n{}\n--- B\n{}", r1.src, r2.src));
            c.key = hash_of(&(&r1.src, &r2.src));
            c.label(if re { "relayout+respelling" } else { "relayout" });
            c.label_if(added, "added empty statements");
            let a = expect_ok(name, &r1.src)?;
            let b = expect_ok(name2, &r2.src)?;
            if b.name.as_deref() != Some(name2) || a.name.as_deref() != Some(name) {
                return fail("name", format!("descriptor name is {:?}, given {name2:?}", b.name)).with("b.proto", &r2.src);
            }
            let (mut a, la) = split(a);
            let (mut b, lb) = split(b);
            b.name = a.name.clone();
            if re {
                cmp::normalise(&mut a);
                cmp::normalise(&mut b);
            }
            if !(if re { same(&a, &b) } else { a.encode_to_vec() == b.encode_to_vec() }) {
                return fail("layout changes descriptor", cmp::diff(&a, &b)).with("a.proto", &r1.src).with("b.proto", &r2.src);
            }
            let p = |l: &[Location]| {
                let mut v: Vec<_> = l.iter().map(|x| x.path.clone()).collect();
                v.sort();
                v
            };
            if !g.toks.is_empty() && p(&la) != p(&lb) {
                return fail("layout changes location paths", cmp::diff(&p(&la), &p(&lb)))
                    .with("a.proto", &r1.src)
                    .with("b.proto", &r2.src);
            }
            Ok(())
        }
        1 => {
            // A, and A followed by B
            let g2 = generate(c.t, cfg, name);
            if g.file.package.is_some() && g2.file.package.is_some() {
                c.nontrivial = false;
                return Ok(());
            }
            let cut = g2.toks.iter().position(|x| x.s == ";").unwrap() + 1;
            let mut toks = g.toks.clone();
            toks.extend(g2.toks[cut..].iter().cloned());
            let s2 = style(c.t);
            let rab = render(c.t, &toks, s2);
            let rb = render(c.t, &g2.toks, Style::Plain);
            c.label("appended declarations");
            c.sample = Some(format!("--- A\n{}\n--- A+B\n{}", r1.src, rab.src));
            c.key = hash_of(&rab.src);
            c.evals = 3;
            let (a, la) = split(expect_ok(name, &r1.src)?);
            let (b, _) = split(expect_ok(name, &rb.src)?);
            let (ab, lab) = split(expect_ok(name, &rab.src)?);
            let exp = concat(&a, &b);
            if exp.encode_to_vec() != ab.encode_to_vec() {
                return fail("appending changes earlier declarations", cmp::diff(&exp, &ab))
                    .with("a.proto", &r1.src)
                    .with("b.proto", &rb.src)
                    .with("ab.proto", &rab.src);
            }
            // every path of A (but the file's own) is still there
            let mut rest: Vec<_> = lab.iter().map(|l| l.path.clone()).collect();
            rest.sort();
            for l in &la {
                match rest.binary_search(&l.path) {
                    Ok(i) => {
                        rest.remove(i);
                    }
                    Err(_) => {
                        return fail("appending loses a location", format!("{:?}", l.path))
                            .with("a.proto", &r1.src)
                            .with("ab.proto", &rab.src)
                    }
                }
            }
            Ok(())
        }
        _ => {
            let s2 = style(c.t);
            let r2 = render(c.t, &g.toks, s2);
            c.sample = Some(format!("--- A\n{}\n--- B\n{}", r1.src, r2.src));
            c.key = hash_of(&(&r1.src, &r2.src));
            c.nontrivial &= !g.viols.is_empty();
            c.label("relayout of a file with violations");
            let v = |r: Result<FileDescriptorProto, protox_parse::ParseError>| match r {
                Ok(_) => 0,
                Err(e) => super::errors::collect(&e).len(),
            };
            let a = v(parse(name, &r1.src)?);
            let b = v(parse(name, &r2.src)?);
            if a != b {
                return fail("layout changes the verdict", format!("{a} errors against {b}"))
                    .with("a.proto", &r1.src)
                    .with("b.proto", &r2.src);
            }
            Ok(())
        }
    }
}

/// inserts `;` after statement ends and openings of message-like scopes
fn add_empty(t: &mut Tape, toks: Vec<Tok>) -> Vec<Tok> {
    // a `}` or `;` outside aggregates always ends a statement of a scope in which an empty
    // statement is allowed; the first token of the file must stay first (syntax)
    let mut out = vec![];
    let mut depth = 0i32;
    for k in toks {
        let mut ins = false;
        if !k.agg {
            match k.s.as_str() {
                ";" if k.k == TK::Sym => ins = true,
                "}" if k.k == TK::Sym => {
                    depth -= 1;
                    ins = true
                }
                "{" => depth += 1,
                _ => {}
            }
        }
        // the brace closing an aggregate is marked agg, the one opening it is not: both are skipped
        out.push(k);
        while ins && t.pct(15) {
            out.push(Tok { k: TK::Sym, s: ";".into(), agg: false });
        }
    }
    let _ = depth;
    out
}

fn sorted(mut v: Vec<Location>) -> Vec<Location> {
    v.sort_by(|a, b| (&a.path, &a.span).cmp(&(&b.path, &b.span)));
    v
}

fn locations(c: &mut Case, comments: bool) -> Result<(), Fail> {
    let big = c.t.pct(15);
    let mut cfg = Cfg { depth: if big { 5 } else { 3 }, decls: if big { 11 } else { 6 }, opt: 18, ranges: 14, sugar: 35, ..Cfg::default() };
    if comments {
        cfg.empties = 6;
        cfg.opt = 8;
    }
    let name = super::file_name(c.t);
    let g = generate(c.t, cfg, name);
    g.label(c);
    let st = if comments { Style::Decl } else { style(c.t) };
    let r = render(c.t, &g.toks, st);
    c.sample = Some(r.src.clone());
    c.key = hash_of(&r.src);
    let f = expect_ok(name, &r.src)?;
    let Some(info) = f.source_code_info else {
        return fail("no source info", "descriptor has no source info").with("source.proto", &r.src);
    };
    if g.toks.is_empty() {
        return Ok(());
    }
    for w in info.location.windows(2) {
        if w[0].path > w[1].path {
            return fail("locations unsorted", format!("{:?} before {:?}", w[0].path, w[1].path)).with("source.proto", &r.src);
        }
    }
    let exp = sorted(expected_locations(&g.locs, &g.toks, &g.empties, &r, comments));
    let mut act = sorted(info.location);
    if !comments {
        c.nontrivial = exp.len() >= 8;
        for l in &mut act {
            l.leading_comments = None;
            l.trailing_comments = None;
            l.leading_detached_comments.clear();
        }
    } else {
        let (mut lead, mut trail, mut det) = (0, 0, 0);
        for l in &exp {
            lead += l.leading_comments.is_some() as u32;
            trail += l.trailing_comments.is_some() as u32;
            det += l.leading_detached_comments.len();
        }
        c.label_if(lead > 0, "leading");
        c.label_if(trail > 0, "trailing");
        c.label_if(det > 0, "detached");
        c.label_if(det > 2, "detached>2");
        c.nontrivial = lead as usize + trail as usize + det >= 2;
    }
    if exp != act {
        let i = exp.iter().zip(&act).position(|(a, b)| a != b).unwrap_or(exp.len().min(act.len()));
        let show = |v: &[Location]| format!("{:?}", v.get(i));
        return fail(
            if comments { "comments differ" } else { "locations differ" },
            format!("{} expected, {} actual; first difference:\nexpected {}\nactual   {}", exp.len(), act.len(), show(&exp), show(&act)),
        )
        .with("source.proto", &r.src);
    }
    Ok(())
}
pub fn c11(c: &mut Case) -> Result<(), Fail> {
    locations(c, false)
}
pub fn c12(c: &mut Case) -> Result<(), Fail> {
    locations(c, true)
}

pub fn run_prop(ctx: &Ctx, prop: &str, replay: Option<&str>) -> i32 {
    let (prop, rule, f): (&'static str, &'static str, fn(&mut Case) -> Result<(), Fail>) = match prop {
        "C10" => (
            "C10",
            "a case is a pair of sources: two independent layouts (literal respelling, extra empty statements, other file name) of one drawn token sequence, or a file and the file with more declarations appended, or two layouts of a file with rule violations; non-trivial: at least 12 tokens (and at least one violation in the last kind)",
            c10,
        ),
        "C11" => (
            "C11",
            "a case is one generated file in a drawn layout; the multiset of (path, span) pairs must equal the one computed from the generator's token ranges; non-trivial: at least 8 locations",
            c11,
        ),
        _ => (
            "C12",
            "a case is one generated file with comments drawn mostly between declarations; comments of every location must equal the reference attachment model's; non-trivial: the model attaches at least 2 comments",
            c12,
        ),
    };
    let spec = Spec {
        prop,
        rule,
        cases: match prop {
            "C10" => ctx.scale(500_000, 10_000_000),
            _ => ctx.scale(600_000, 12_000_000),
        },
        assumptions: vec![],
        f: &f,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}
