//! C14: acceptance agrees with an independent recogniser over edited token sequences.
use super::errors::collect;
use super::structural::parse;
use super::*;
use crate::fuzzgen::{any_tok, edit_tokens};
use crate::gen::*;
use crate::layout::*;
use crate::refparse::{judge, Verdict};

fn plain(mut toks: Vec<Tok>) -> Vec<Tok> {
    for k in &mut toks {
        k.agg = false;
        if k.k == TK::Float && !k.s.starts_with("0x") {
            k.s = k.s.trim_end_matches(['f', 'F']).to_string();
            if !k.s.contains(['.', 'e', 'E']) {
                k.k = TK::Int;
            }
        }
    }
    toks
}

pub fn c14(c: &mut Case) -> Result<(), Fail> {
    let mut toks;
    let mut edits = 0;
    let kind = c.t.weighted(&[85, 15]);
    let name = super::file_name(c.t);
    if kind == 0 {
        let mut cfg = Cfg { lit: 8, opt: 15, agg: 15, ..Cfg::default() };
        if c.t.pct(40) {
            cfg.decls = 2;
        }
        if c.t.pct(30) {
            cfg.ranges = 30;
        }
        if c.t.pct(20) {
            cfg.viol = *c.t.pick(&[VStage::Gen, VStage::Parse]);
            cfg.viol_pct = 10;
            cfg.max_viol = 1;
        }
        toks = plain(generate(c.t, cfg, name).toks);
        edits = c.t.weighted(&[10, 60, 20, 10]);
        for _ in 0..edits {
            let l = edit_tokens(c.t, &mut toks);
            c.label(l);
        }
    } else {
        // a valid prefix cut anywhere, followed by random tokens
        let cfg = Cfg { lit: 0, decls: 2, ..Cfg::default() };
        toks = plain(generate(c.t, cfg, name).toks);
        let k = c.t.below(toks.len() + 1);
        toks.truncate(k);
        for _ in 0..c.t.count(0, 6) {
            let x = any_tok(c.t, false);
            toks.push(x);
        }
        c.label("prefix and random tokens");
    }
    for k in &mut toks {
        k.agg = false;
    }
    let style = *c.t.pick(&[Style::Plain, Style::Ws, Style::Comments]);
    let r = render(c.t, &toks, style);
    let v = judge(&toks);
    c.key = hash_of(&toks);
    c.sample = Some(r.src.clone());
    c.nontrivial = edits > 0 || kind == 1;
    c.label(match v {
        Verdict::Accept => "verdict: accept",
        Verdict::Reject(_) => "verdict: ungrammatical",
        Verdict::Rule(_) => "verdict: rule violated",
        Verdict::Unspecified => "verdict: unspecified",
    });
    if let Verdict::Rule(x) = v {
        c.label(&format!("rule: {x}"));
    }
    let res = parse(name, &r.src)?;
    let e = match (v, res) {
        (Verdict::Unspecified, _) => return Ok(()),
        (Verdict::Accept, Ok(_)) => return Ok(()),
        (Verdict::Accept, Err(e)) => {
            return fail("grammatical file rejected", format!("{e:?}")).with("source.proto", &r.src);
        }
        (Verdict::Rule(x), Ok(_)) => {
            return fail("rule not enforced", format!("accepted against the rule: {x}")).with("source.proto", &r.src);
        }
        (Verdict::Rule(_), Err(_)) => return Ok(()),
        (Verdict::Reject(i), Ok(_)) => {
            let w = r.pos.get(i).map_or("end of file".to_string(), |p| format!("{:?} at {}..{}", &r.src[p.0..p.1], p.0, p.1));
            return fail("ungrammatical file accepted", format!("accepted, but ungrammatical from {w}")).with("source.proto", &r.src);
        }
        (Verdict::Reject(i), Err(e)) => (i, e),
    };
    let (i, e) = e;
    let got = subject("reading the error", || collect(&e)).with("source.proto", &r.src)?;
    let first = &got[0];
    let end = r.pos.get(i).map_or(r.src.len(), |p| p.1);
    let ok = if first.labels.is_empty() {
        i >= toks.len()
    } else {
        first.labels.iter().all(|l| l.0 <= end)
    };
    if !ok {
        let w = r.pos.get(i).map_or("end of file".to_string(), |p| format!("{:?} at {}..{}", &r.src[p.0..p.1], p.0, p.1));
        return fail("error beyond the bad token", format!("ungrammatical from {w}, but the first error is {first:?}"))
            .with("source.proto", &r.src);
    }
    Ok(())
}

pub fn run_c14(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C14",
        rule: "a case is one token sequence (a generated file edited at 0-3 places, or cut and continued with random tokens) judged by the independent recogniser and by the parser; non-trivial: edited",
        cases: ctx.scale(3_000_000, 60_000_000),
        assumptions: vec!["forms on which the written grammar and protoc differ are left unspecified (see refparse.rs)"],
        f: &c14,
        threads: THREADS,
        shrink_budget: 6000,
    };
    go(ctx, spec, replay)
}
