//! C03-C09: the descriptor equals the one the constructive generator predicts.  The seven
//! properties share one oracle (the whole descriptor) and differ in what the generator produces.
use super::*;
use crate::cmp;
use crate::gen::*;
use crate::layout::*;
use prost::Message;

pub fn parse(name: &str, src: &str) -> Result<Result<prost_types::FileDescriptorProto, protox_parse::ParseError>, Fail> {
    subject("parse", || protox_parse::parse(name, src)).with("source.proto", src)
}

pub fn expect_ok(name: &str, src: &str) -> Result<prost_types::FileDescriptorProto, Fail> {
    match parse(name, src)? {
        Ok(f) => Ok(f),
        Err(e) => fail("rejected valid file", format!("valid file rejected: {e:?}")).with("source.proto", src),
    }
}

pub fn same(exp: &prost_types::FileDescriptorProto, act: &prost_types::FileDescriptorProto) -> bool {
    exp == act && exp.encode_to_vec() == act.encode_to_vec()
}

pub fn check_file(c: &mut Case, g: &Generated, r: &Rendered, name: &str) -> Result<(), Fail> {
    let mut f = expect_ok(name, &r.src)?;
    f.source_code_info = None;
    cmp::normalise(&mut f);
    if !same(&g.file, &f) {
        return fail("descriptor differs", format!("descriptor differs from the declarations\n{}", cmp::diff(&g.file, &f)))
            .with("source.proto", &r.src);
    }
    c.key = hash_of(&r.src);
    Ok(())
}

pub fn cfg_for(prop: &str, t: &mut Tape) -> Cfg {
    let big = t.pct(15);
    let mut c = Cfg { depth: if big { 6 } else { 3 }, decls: if big { 12 } else { 5 }, ..Cfg::default() };
    match prop {
        "C03" => {
            c.kw = 25;
        }
        "C04" => {
            c.syntax = if t.pct(30) { Some(true) } else { None };
            c.sugar = 80;
            c.opt = 6;
            c.decls = if big { 14 } else { 7 };
        }
        "C05" => {
            c.opt = 60;
            c.agg = 12;
            c.decls = 4;
        }
        "C06" => {
            c.opt = 50;
            c.agg = 160;
            c.lit = 50;
            c.depth = 2;
            c.decls = 3;
        }
        "C07" => {
            c.defaults = 75;
            c.lit = 45;
            c.opt = 15;
            c.syntax = if t.pct(25) { None } else { Some(false) };
        }
        "C08" => {
            c.ranges = 70;
            c.lit = 35;
        }
        "C09" => {
            c.lit = 85;
            c.opt = 40;
            c.agg = 20;
            c.defaults = 50;
            c.decls = 4;
        }
        _ => {}
    }
    c
}

const RULE: &str = "a case is one generated proto2/proto3 file (drawn declarations, random layout with comments) whose parse result is compared with the predicted descriptor; non-trivial: at least 12 tokens and at least one construct of the property's focus (see classes)";

fn focus(prop: &str, g: &Generated) -> bool {
    let has = |f: &[&str]| f.iter().any(|x| g.feats.contains(x));
    match prop {
        "C03" => true,
        "C04" => has(&["map", "group", "oneof", "proto3-optional"]),
        "C05" => has(&["option-statement", "option-list>1", "multi-part-option-name", "extension-range-options"]),
        "C06" => has(&["aggregate"]),
        "C07" => has(&["default", "json_name"]),
        "C08" => has(&["reserved-range", "reserved-name", "extension-range", "enum-reserved-range", "enum-reserved-name"]),
        "C09" => has(&["hex-int", "oct-int", "float-literal", "hex-escape", "oct-escape", "unicode-escape", "string-concat"]),
        _ => true,
    }
}

pub fn case(prop: &str, c: &mut Case) -> Result<(), Fail> {
    let cfg = cfg_for(prop, c.t);
    let name = super::file_name(c.t);
    let g = generate(c.t, cfg, name);
    let style = match c.t.below(3) {
        0 => Style::Plain,
        1 => Style::Ws,
        _ => Style::Comments,
    };
    let r = render(c.t, &g.toks, style);
    g.label(c);
    c.nontrivial = g.toks.len() >= 12 && focus(prop, &g);
    c.sample = Some(r.src.clone());
    check_file(c, &g, &r, name)?;
    if prop == "C06" && focus(prop, &g) && c.t.pct(40) {
        return outside(c, &g.toks, &r, name);
    }
    Ok(())
}

/// the forms of text format stay errors outside of aggregates, anywhere after one
fn outside(c: &mut Case, toks: &[Tok], r: &Rendered, name: &str) -> Result<(), Fail> {
    let n = toks.len();
    let first = toks.iter().position(|t| t.agg).unwrap_or(n);
    let spots: Vec<usize> = (first..=n).filter(|i| toks.get(*i).is_none_or(|k| !k.agg)).collect();
    let nums: Vec<usize> = (first..n)
        .filter(|i| !toks[*i].agg && matches!(toks[*i].k, TK::Int | TK::Float) && !toks[*i].s.starts_with("0x") && !toks[*i].s.starts_with("0X"))
        .collect();
    let (at, text) = if !nums.is_empty() && c.t.pct(50) {
        c.label("suffix outside");
        (r.pos[*c.t.pick(&nums)].1, *c.t.pick(&["f", "F"]))
    } else {
        c.label("hash comment outside");
        let i = *c.t.pick(&spots);
        (if i < n { r.pos[i].0 } else { r.pos[n - 1].1 }, *c.t.pick(&["#\n", "# a\n"]))
    };
    let src = format!("{}{text}{}", &r.src[..at], &r.src[at..]);
    match parse(name, &src)? {
        Err(_) => Ok(()),
        Ok(_) => fail("text format outside", format!("{text:?} is accepted outside of aggregate values, at byte {at}")).with("source.proto", &src),
    }
}

pub fn run_prop(ctx: &Ctx, prop: &str, replay: Option<&str>) -> i32 {
    let prop: &'static str = Box::leak(prop.to_string().into_boxed_str());
    let f = move |c: &mut Case| case(prop, c);
    let spec = Spec {
        prop,
        rule: RULE,
        cases: ctx.scale(1_000_000, 20_000_000),
        assumptions: vec!["the generator's prediction of the descriptor is the specification (cross-checked against protoc by C21)"],
        f: &f,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}
