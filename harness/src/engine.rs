//! A small property-based testing engine.
//!
//! Every random choice of a case is a draw from a `Tape`.  A fresh tape is filled from ChaCha8
//! seeded by (VERIF_SEED, property, case index); a replayed tape reads recorded draws and yields 0
//! (the simplest choice, by convention) past its end.  Shrinking edits the recorded draws
//! (delete / zero / lower) and keeps an edit when the same property still fails.
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Tape {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<ChaCha8Rng>,
    /// where to note every draw at once, for cases that end the process
    pub log: Option<std::fs::File>,
}

const MAX_DRAWS: usize = 400_000;

impl Tape {
    pub fn fresh(seed: u64, prop: &str, index: u64) -> Tape {
        let mut h = Fnv::default();
        (seed, prop, index).hash(&mut h);
        let a = h.finish();
        (a, index, seed, 77u8).hash(&mut h);
        let mut key = [0u8; 32];
        key[..8].copy_from_slice(&a.to_le_bytes());
        key[8..16].copy_from_slice(&h.finish().to_le_bytes());
        key[16..24].copy_from_slice(&index.to_le_bytes());
        key[24..].copy_from_slice(&seed.to_le_bytes());
        Tape { data: Vec::new(), pos: 0, rng: Some(ChaCha8Rng::from_seed(key)), log: None }
    }
    pub fn replay(data: Vec<u32>) -> Tape {
        Tape { data, pos: 0, rng: None, log: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    fn draw(&mut self, n: u32) -> u32 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = if self.data.len() >= MAX_DRAWS { 0 } else { r.next_u32() };
                let v = if n == 0 { v } else { v % n };
                if self.data.len() < MAX_DRAWS {
                    self.data.push(v);
                    if let Some(f) = &mut self.log {
                        let _ = std::io::Write::write_all(f, &v.to_le_bytes());
                    }
                }
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        };
        self.pos += 1;
        v
    }
    /// 0..n, simplest 0
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u32) as usize
    }
    /// lo..=hi, simplest lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn u32(&mut self) -> u32 {
        self.draw(0)
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.draw(0) as u64;
        let lo = self.draw(0) as u64;
        (hi << 32) | lo
    }
    /// true with probability pct/100; simplest false
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        self.draw(100) >= 100 - pct.min(100)
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.below(xs.len())]
    }
    /// index by weight; simplest 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// number of repetitions, geometric-ish between lo and hi
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        // small counts are likely, the maximum is reachable
        let r = self.draw(8);
        let span = hi - lo;
        let top = match r {
            0..=3 => span.min(2),
            4..=6 => span.min(5),
            _ => span,
        };
        lo + self.below(top + 1)
    }
}

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        if self.0 == 0 {
            self.0 = 0xcbf29ce484222325;
        }
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
    pub artefacts: Vec<(String, Vec<u8>)>,
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into(), artefacts: vec![] })
}

impl Fail {
    pub fn with(mut self, name: &str, bytes: impl AsRef<[u8]>) -> Fail {
        self.artefacts.push((name.to_string(), bytes.as_ref().to_vec()));
        self
    }
}
pub trait WithArtefact {
    fn with(self, name: &str, bytes: impl AsRef<[u8]>) -> Self;
}
impl<T> WithArtefact for Result<T, Fail> {
    fn with(self, name: &str, bytes: impl AsRef<[u8]>) -> Self {
        self.map_err(|f| f.with(name, bytes))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        if std::env::var_os("PBT_SHOW_PANICS").is_some() {
            eprintln!("{s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Run code of the system under test; a panic in it is a failure of the property.
pub fn subject<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail(format!("panic in {what}"), format!("{what} panicked: {m}"))
        }
    }
}

pub struct Case<'a> {
    pub t: &'a mut Tape,
    pub index: u64,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: Option<String>,
    /// sub-evaluations beyond the case itself (executions of the system under test)
    pub evals: u64,
}
impl Case<'_> {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
}

pub struct Spec<'f> {
    pub prop: &'static str,
    pub rule: &'static str,
    pub cases: u64,
    pub assumptions: Vec<&'static str>,
    pub f: &'f (dyn Fn(&mut Case) -> Result<(), Fail> + Sync),
    pub threads: usize,
    /// maximal number of executions during shrinking
    pub shrink_budget: usize,
}

pub struct Ctx {
    pub tier: String,
    pub seed: u64,
    pub root: std::path::PathBuf,
    pub start: Instant,
    /// run one case only: index, tape file, whether to draw afresh (and note the draws there)
    pub probe: Option<(u64, std::path::PathBuf, bool)>,
}
impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if let Ok(v) = std::env::var("PBT_CASES") {
            return v.parse().unwrap();
        }
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
}

#[derive(serde::Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub status: String,
    #[serde(default)]
    pub signature: String,
    pub what: String,
}
pub fn known_findings(root: &std::path::Path) -> Vec<Known> {
    let p = root.join("known_findings.json");
    match std::fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str(&s).expect("known_findings.json"),
        Err(_) => vec![],
    }
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

enum Outcome {
    Done,
    Failed(Fail),
    Harness(String),
}

fn exec(spec: &Spec, index: u64, tape: &mut Tape, stats: Option<&Mutex<Stats>>) -> Outcome {
    let mut case = Case {
        t: tape,
        index,
        labels: vec![],
        nontrivial: false,
        key: 0,
        sample: None,
        evals: 1,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (spec.f)(&mut case)));
    let (labels, nontrivial, key, sample, evals) =
        (case.labels, case.nontrivial, case.key, case.sample, case.evals);
    if let Some(st) = stats {
        let mut st = st.lock().unwrap();
        st.cases += 1;
        st.evals += evals;
        for l in labels {
            *st.labels.entry(l).or_default() += 1;
        }
        if nontrivial {
            st.nontrivial += 1;
            if st.distinct.insert(key) && st.samples.len() < 4 {
                if let Some(s) = sample {
                    if s.len() < 6000 {
                        st.samples.push(s);
                    }
                }
            }
        }
    }
    match r {
        Ok(Ok(())) => Outcome::Done,
        Ok(Err(f)) => Outcome::Failed(f),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            // a problem of the surroundings, or else something about the outputs the check did not expect
            if m.contains("Os {") || m.contains("harness:") {
                Outcome::Harness(m)
            } else {
                Outcome::Failed(Fail { sig: PANICKED.into(), msg: m, artefacts: vec![] })
            }
        }
    }
}
const STACK: usize = 256 << 20;
const PANICKED: &str = "the check could not make sense of the outputs";

fn shrink(spec: &Spec, index: u64, data: Vec<u32>, first: Fail, known: &[Known], slots: &crate::supervise::Slots) -> (Vec<u32>, Fail, usize) {
    let mut best = data;
    let mut best_fail = first;
    let mut runs = 0usize;
    let deadline = Instant::now() + std::time::Duration::from_secs(120);
    let is_known = |f: &Fail| known.iter().any(|k| k.status == "known" && k.property == spec.prop && k.signature == f.sig);
    let try_it = |cand: Vec<u32>, best: &mut Vec<u32>, best_fail: &mut Fail, runs: &mut usize| -> bool {
        if *runs >= budget(spec) || Instant::now() > deadline {
            return false;
        }
        *runs += 1;
        slots.note(0, index);
        let mut t = Tape::replay(cand);
        match exec(spec, index, &mut t, None) {
            Outcome::Failed(f) if !is_known(&f) && (f.sig != PANICKED || best_fail.sig == PANICKED) => {
                let used = t.used().min(t.data.len());
                t.data.truncate(used);
                while t.data.last() == Some(&0) {
                    t.data.pop();
                }
                *best = t.data;
                *best_fail = f;
                true
            }
            _ => false,
        }
    };
    // drop the unused tail
    let d = best.clone();
    try_it(d, &mut best, &mut best_fail, &mut runs);
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !try_it(cand, &mut best, &mut best_fail, &mut runs) {
                    let mut cand = best.clone();
                    if cand[i..i + size].iter().any(|v| *v != 0) {
                        cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                        try_it(cand, &mut best, &mut best_fail, &mut runs);
                    }
                    i += size;
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for nv in [v / 2, v - 1] {
                    let mut cand = best.clone();
                    if i < cand.len() && nv < cand[i] {
                        cand[i] = nv;
                        try_it(cand, &mut best, &mut best_fail, &mut runs);
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= budget(spec) || Instant::now() > deadline {
            break;
        }
    }
    (best, best_fail, runs)
}

/// Runs a check and returns the process exit code.
fn budget(spec: &Spec) -> usize {
    std::env::var("PBT_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(spec.shrink_budget)
}

pub fn run(ctx: &Ctx, spec: &Spec) -> i32 {
    let known = known_findings(&ctx.root);
    let stats = Mutex::new(Stats::default());
    let survey = std::env::var_os("PBT_SURVEY").is_some();
    let only: Option<u64> = std::env::var("PBT_ONLY").ok().and_then(|v| v.parse().ok());
    let next = AtomicU64::new(only.unwrap_or(0));
    let best_index = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<(u64, Vec<u32>, Fail)>> = Mutex::new(None);
    let harness: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let slots = crate::supervise::Slots::open();
    std::thread::scope(|s| {
        for worker in 0..spec.threads.max(1) {
            let (next, best_index, failure, harness, stop, stats, known, slots) =
                (&next, &best_index, &failure, &harness, &stop, &stats, &known, &slots);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= only.map_or(spec.cases, |n| n + 1) || i > best_index.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                        return;
                    }
                    let mut tape = Tape::fresh(ctx.seed, spec.prop, i);
                    slots.note(worker, i);
                    match exec(spec, i, &mut tape, Some(stats)) {
                        Outcome::Done => {}
                        Outcome::Failed(f) => {
                            if let Some(k) = known
                                .iter()
                                .find(|k| k.status == "known" && k.property == spec.prop && k.signature == f.sig)
                            {
                                *stats.lock().unwrap().known.entry(k.what.clone()).or_default() += 1;
                                continue;
                            }
                            if survey {
                                // development aid: list failures instead of stopping at the first
                                eprintln!("SURVEY {i} [{}] {}", f.sig, f.msg.replace('\n', " | "));
                                continue;
                            }
                            let mut g = failure.lock().unwrap();
                            if g.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                best_index.fetch_min(i, Ordering::SeqCst);
                                *g = Some((i, tape.data, f));
                            }
                        }
                        Outcome::Harness(m) => {
                            let mut g = harness.lock().unwrap();
                            if g.is_none() {
                                *g = Some((i, m));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap();
        }
    });
    let st = stats.into_inner().unwrap();
    if let Some((i, m)) = harness.into_inner().unwrap() {
        eprintln!("HARNESS ERROR in case {i}: {m}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    for k in known.iter().filter(|k| k.status == "known" && k.property == spec.prop) {
        println!("KNOWN-FINDING: property={} {}", spec.prop, k.what);
    }
    if let Some((i, data, f)) = failure.into_inner().unwrap() {
        violations = 1;
        code = 1;
        eprintln!("case {i} failed: {}\nshrinking ...", first_lines(&f.msg, 40));
        let n0 = data.len();
        let res = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || shrink(spec, i, data, f, &known, &slots))
                .unwrap()
                .join()
                .unwrap()
        });
        let (data, f, runs) = res;
        let path = write_replay(ctx, spec.prop, i, &data, &f);
        println!(
            "shrunk from {n0} to {} draws in {runs} runs\n[{}] {}",
            data.len(),
            f.sig,
            first_lines(&f.msg, 120)
        );
        for (n, a) in &f.artefacts {
            println!("--- {n} ---\n{}", first_lines(&String::from_utf8_lossy(a), 80));
        }
        println!("VIOLATION property={} replay={}", spec.prop, path.display());
    }
    write_evidence(ctx, spec, &st, violations);
    println!(
        "{}: {} cases, {} executions, {} distinct non-trivial, {} violation(s), {:.1}s",
        spec.prop,
        st.cases,
        st.evals,
        st.distinct.len(),
        violations,
        ctx.start.elapsed().as_secs_f64()
    );
    code
}

pub fn replay(ctx: &Ctx, spec: &Spec, path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let data: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let index = v["case"].as_u64().unwrap_or(0);
    let mut t = Tape::replay(data);
    let _ = ctx;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || exec(spec, index, &mut t, None))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Outcome::Done => {
            println!("replay passes");
            0
        }
        Outcome::Failed(f) => {
            println!("[{}] {}", f.sig, f.msg);
            for (n, a) in &f.artefacts {
                println!("--- {n} ---\n{}", String::from_utf8_lossy(a));
            }
            println!("VIOLATION property={} replay={}", spec.prop, path);
            1
        }
        Outcome::Harness(m) => {
            eprintln!("HARNESS ERROR {m}");
            2
        }
    }
}

/// One case on a recorded tape, or on a fresh one whose draws are noted in a file: the exit code
/// says how it went, unless the case ends the process.
pub fn probe(ctx: &Ctx, spec: &Spec, index: u64, tape: &std::path::Path, fresh: bool) -> i32 {
    let mut t = if fresh {
        let mut t = Tape::fresh(ctx.seed, spec.prop, index);
        t.log = Some(std::fs::File::create(tape).unwrap());
        t
    } else {
        let b = std::fs::read(tape).unwrap();
        Tape::replay(b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || exec(spec, index, &mut t, None))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Outcome::Done => 0,
        Outcome::Failed(_) => 1,
        Outcome::Harness(_) => 2,
    }
}

pub fn first_lines(s: &str, n: usize) -> String {
    let mut out = String::new();
    for (i, l) in s.lines().enumerate() {
        if i >= n {
            out.push_str("...\n");
            break;
        }
        if l.len() > 4000 {
            out.extend(l.chars().take(4000));
            out.push_str("...");
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out.trim_end().to_string()
}

pub fn write_replay(ctx: &Ctx, prop: &str, case: u64, data: &[u32], f: &Fail) -> std::path::PathBuf {
    let dir = ctx.root.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{prop}-{}-{case}.json", ctx.seed));
    let arts: serde_json::Map<String, serde_json::Value> = f
        .artefacts
        .iter()
        .map(|(n, a)| {
            (
                n.clone(),
                match std::str::from_utf8(a) {
                    Ok(s) => serde_json::Value::String(s.to_string()),
                    Err(_) => serde_json::json!({"bytes": a}),
                },
            )
        })
        .collect();
    let v = serde_json::json!({
        "property": prop, "seed": ctx.seed, "case": case, "signature": f.sig,
        "message": f.msg, "tape": data, "artefacts": arts,
        "how": format!("bash /verif/run.sh {prop} replay {}", path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

pub fn write_evidence(ctx: &Ctx, spec: &Spec, st: &Stats, violations: i64) {
    let cov = serde_json::json!({
        "evaluations": st.evals,
        "cases": st.cases,
        "distinct_nontrivial": st.distinct.len(),
        "nontrivial_cases": st.nontrivial,
        "rule": spec.rule,
        "classes": st.labels,
        "known_findings_hit": st.known,
        "samples": st.samples,
    });
    write_evidence_raw(ctx, spec.prop, cov, &spec.assumptions, violations);
}

pub fn write_evidence_raw(ctx: &Ctx, prop: &str, cov: serde_json::Value, assumptions: &[&str], violations: i64) {
    let v = serde_json::json!({
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": cov, "assumptions": assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = ctx.root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
