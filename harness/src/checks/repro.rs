//! C25: results depend on the inputs alone: not on what ran before, beside or elsewhere.
use super::errors::collect;
use super::outputs::{with_google, Sources};
use super::program::STYLES;
use super::*;
use crate::progen;
use crate::scratch::Scratch;
use crate::{fuzzgen, gen, layout};
use prost::Message;
use protox::{Compiler, Error};
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Job {
    Parse { name: String, src: String },
    Compile { files: Vec<(String, String)>, dir: Option<String>, opens: Vec<String>, keep_going: bool, flags_first: bool },
}

/// what was observed, item by item
type Outcome = Vec<(String, Vec<u8>)>;

fn show_error(e: &Error) -> String {
    use miette::Diagnostic;
    let labels: Vec<_> = e.labels().into_iter().flatten().map(|l| (l.label().map(str::to_owned), l.offset(), l.len())).collect();
    let related: Vec<String> = e.related().into_iter().flatten().map(|r| format!("{r} {:?}", r.labels().map(|l| l.map(|l| (l.offset(), l.len())).collect::<Vec<_>>()))).collect();
    format!("{e} | {e:?} | {:?} {} {} {} {labels:?} {related:?}", e.file(), e.is_parse(), e.is_io(), e.is_file_not_found())
}

fn evaluate(job: &Job) -> Outcome {
    let mut out = vec![];
    match job {
        Job::Parse { name, src } => match protox_parse::parse(name, src) {
            Ok(f) => {
                out.push(("descriptor".to_string(), f.encode_to_vec()));
                out.push(("descriptor text".to_string(), format!("{f:?}").into_bytes()));
            }
            Err(e) => {
                let obs: Vec<String> = collect(&e).iter().map(|o| format!("{o:?}")).collect();
                out.push(("error".to_string(), format!("{e} | {e:?} | {:?} {:?} {obs:?}", e.file(), e.span()).into_bytes()));
            }
        },
        Job::Compile { files, dir, opens, keep_going, flags_first } => {
            let mut c = match dir {
                Some(d) => match Compiler::new([d]) {
                    Ok(c) => c,
                    Err(e) => return vec![("new".into(), show_error(&e).into_bytes())],
                },
                None => Compiler::with_file_resolver(with_google(Sources(files.iter().cloned().collect()))),
            };
            if *flags_first {
                c.include_imports(true).include_source_info(true);
            }
            for o in opens {
                let path = dir.as_ref().map_or(o.clone(), |d| format!("{d}/{o}"));
                let r = match c.open_file(&path) {
                    Ok(_) => "opened".to_string(),
                    Err(e) => show_error(&e),
                };
                let ok = r == "opened";
                out.push((format!("opening {o}"), r.into_bytes()));
                if !ok && !keep_going {
                    return out;
                }
            }
            for (i, s) in [(false, false), (true, false), (false, true), (true, true)] {
                c.include_imports(i).include_source_info(s);
                out.push((format!("encoded {i} {s}"), c.encode_file_descriptor_set()));
                out.push((format!("set {i} {s}"), c.file_descriptor_set().encode_to_vec()));
            }
            let list: Vec<String> = c.files().map(|f| format!("{} {} {:?}", f.name(), f.is_import(), f.path())).collect();
            out.push(("files".into(), list.join("\n").into_bytes()));
            out.push(("pool".into(), c.descriptor_pool().encode_to_vec()));
        }
    }
    out
}

fn hashes(o: &Outcome) -> Vec<(String, u64)> {
    o.iter().map(|(k, v)| (k.clone(), hash_of(v))).collect()
}

fn same(how: &str, job: &Job, want: &Outcome, got: &Outcome) -> Result<(), Fail> {
    if want == got {
        return Ok(());
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let text = |o: &Outcome| o.get(at).map_or("nothing".to_string(), |(k, v)| format!("{k}: {}", String::from_utf8_lossy(&v[..v.len().min(2000)])));
    fail(how, format!("{how} gives another result\nfirst: {}\nnow:   {}", text(want), text(got))).with("job.json", serde_json::to_string_pretty(job).unwrap())
}

/// usage: child C25; a list of jobs as JSON on the input, the hashes of their outcomes on the output
pub fn child() -> i32 {
    let jobs: Vec<Job> = serde_json::from_reader(std::io::stdin().lock()).expect("jobs");
    let mut out: Vec<_> = jobs.iter().rev().map(|j| hashes(&evaluate(j))).collect();
    out.reverse();
    println!("{}", serde_json::to_string(&out).unwrap());
    0
}

fn in_other_process(c: &mut Case, jobs: &[Job]) -> Result<Vec<Vec<(String, u64)>>, Fail> {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["C25", "child"]).env_clear().current_dir("/").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in [("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("RUST_BACKTRACE", "1"), ("NO_COLOR", "1"), ("COLUMNS", "20"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("PROTOC_INCLUDE", "/nonexistent"), ("TMPDIR", "/nonexistent")] {
        if c.t.pct(40) {
            cmd.env(k, v);
        }
    }
    let mut ch = cmd.spawn().expect("child");
    serde_json::to_writer(ch.stdin.take().unwrap(), jobs).expect("jobs");
    let o = ch.wait_with_output().expect("child");
    if !o.status.success() {
        return fail("another process fails", format!("{}\n{}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(serde_json::from_slice(&o.stdout).expect("outcomes"))
}

/// a text that differs from another one in little
fn vary(c: &mut Case, src: &str) -> String {
    let at: Vec<usize> = src.char_indices().filter(|(_, ch)| ch.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
    if at.is_empty() || c.t.pct(15) {
        return format!("{src}\nmessage Other_{} {{}}\n", c.t.below(100));
    }
    let mut b = src.as_bytes().to_vec();
    let i = *c.t.pick(&at);
    b[i] = *c.t.pick(b"0123456789abcXYZ");
    String::from_utf8(b).unwrap()
}

fn source(c: &mut Case) -> String {
    if c.t.pct(45) {
        return fuzzgen::text(c.t, &mut vec![]);
    }
    let g = gen::generate(c.t, gen::Cfg::default(), "x");
    let style = *c.t.pick(STYLES);
    layout::render(c.t, &g.toks, style).src
}

fn draw(c: &mut Case, earlier: &[Job]) -> Job {
    let like: Option<Job> = if c.t.pct(50) && !earlier.is_empty() { Some(c.t.pick(earlier).clone()) } else { None };
    match like {
        Some(Job::Parse { name, src }) => {
            c.label("like another source");
            return match c.t.below(3) {
                0 => Job::Parse { name, src: source(c) },
                1 => Job::Parse { src: vary(c, &src), name },
                _ => Job::Parse { name: super::file_name(c.t).to_string(), src },
            };
        }
        Some(Job::Compile { mut files, dir: _, mut opens, keep_going, flags_first }) => {
            c.label("like another program");
            if !files.is_empty() {
                let i = c.t.below(files.len());
                match c.t.below(3) {
                    0 => files[i].1 = source(c),
                    1 => files[i].1 = vary(c, &files[i].1.clone()),
                    _ => opens.reverse(),
                }
            }
            return Job::Compile { files, dir: None, opens, keep_going, flags_first };
        }
        None => {}
    }
    match c.t.weighted(&[50, 30, 20]) {
        0 => Job::Parse { name: super::file_name(c.t).to_string(), src: source(c) },
        1 => {
            let cfg = progen::Cfg { files: 3, opt: 12, custom: *c.t.pick(&[10, 60]), google: 2, styles: STYLES, deep_public: 0, captured: 0, stray: 0 };
            let mut p = progen::generate(c.t, cfg);
            if c.t.pct(40) {
                super::program::mutate(c, &mut p);
            }
            let files = p.files.iter().map(|f| (f.name.clone(), f.src.clone())).collect();
            let mut opens: Vec<String> = p.files.iter().map(|f| f.name.clone()).filter(|_| c.t.pct(70)).collect();
            if c.t.pct(30) {
                opens.reverse();
            }
            Job::Compile { files, dir: None, opens, keep_going: c.t.pct(50), flags_first: c.t.pct(50) }
        }
        _ => {
            let faults = *c.t.pick(&[0, 20]);
            let cfg = crate::world::Cfg { max_files: 8, faults, cycles: faults, dups: faults / 2, google: c.t.pct(10), style: c.t.pct(30), chains: 0 };
            let w = crate::world::World::generate(c.t, &cfg);
            use crate::world::Fault;
            let files = w.nodes.iter().filter(|n| !matches!(n.fault, Fault::Missing | Fault::Io | Fault::Custom)).map(|n| (n.name.clone(), n.src.clone())).collect();
            let opens = (0..c.t.range(1, 4)).map(|_| c.t.pick(&w.nodes).name.clone()).collect();
            Job::Compile { files, dir: None, opens, keep_going: c.t.pct(70), flags_first: c.t.pct(50) }
        }
    }
}

fn write(dir: &str, files: &[(String, String)]) -> bool {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("directory");
    files.iter().all(|(n, s)| {
        let p = Path::new(dir).join(n);
        std::fs::create_dir_all(p.parent().unwrap()).is_ok() && std::fs::write(p, s).is_ok()
    })
}

fn case(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..c.t.range(2, 5) {
        let j = draw(c, &jobs);
        jobs.push(j);
    }
    let disk = c.t.pct(20);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    // a directory that no other case has used
    let root = s.root.join(if disk { s.fresh() } else { "none".into() }).join(format!("c{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    if disk {
        for (k, j) in jobs.iter_mut().enumerate() {
            if let Job::Compile { files, dir, .. } = j {
                let d = root.join(format!("j{k}")).to_str().unwrap().to_string();
                if write(&d, files) {
                    *dir = Some(d);
                }
            }
        }
    }
    c.key = hash_of(&format!("{jobs:?}"));
    let mut want = vec![];
    let all = |r: Result<(), Fail>, jobs: &[Job]| r.with("jobs.json", serde_json::to_string_pretty(jobs).unwrap());
    let (mut oks, mut errs) = (0, 0);
    for j in &jobs {
        let o = subject("evaluating", || evaluate(j)).with("job.json", serde_json::to_string_pretty(j).unwrap())?;
        let ok = o.len() > 1;
        if ok { oks += 1 } else { errs += 1 }
        c.label(match (j, ok) {
            (Job::Parse { .. }, true) => "parsed",
            (Job::Parse { .. }, false) => "parse error",
            (Job::Compile { .. }, true) => "compiled",
            (Job::Compile { .. }, false) => "compile error",
        });
        want.push(o);
    }
    c.nontrivial = oks > 0 && (errs > 0 || jobs.len() > 2);
    // another order, some of them several times
    for _ in 0..jobs.len() + c.t.below(3) {
        let k = c.t.below(jobs.len());
        let got = subject("evaluating again", || evaluate(&jobs[k])).with("job.json", serde_json::to_string_pretty(&jobs[k]).unwrap())?;
        c.evals += 1;
        all(same("evaluating again", &jobs[k], &want[k], &got), &jobs)?;
    }
    // from several threads at once
    if c.t.pct(60) {
        c.label("threads");
        let shared = Arc::new(jobs.clone());
        let n = 3;
        let barrier = Arc::new(Barrier::new(n));
        let handles: Vec<_> = (0..n)
            .map(|i| {
                let (jobs, barrier) = (shared.clone(), barrier.clone());
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        barrier.wait();
                        (0..jobs.len())
                            .map(|k| {
                                let k = (k + i) % jobs.len();
                                (k, subject("evaluating beside others", || evaluate(&jobs[k])))
                            })
                            .collect::<Vec<_>>()
                    })
                    .expect("thread")
            })
            .collect();
        for h in handles {
            for (k, got) in h.join().expect("harness: thread") {
                c.evals += 1;
                all(same("evaluating beside others", &jobs[k], &want[k], &got?), &jobs)?;
            }
        }
    }
    // in a new process, from another directory, with another environment
    if c.t.pct(20) {
        c.label("another process");
        let got = all_r(in_other_process(c, &jobs), &jobs)?;
        for (k, got) in got.iter().enumerate() {
            c.evals += 1;
            let want = hashes(&want[k]);
            if want != *got {
                let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                let r = fail("in another process", format!("in another process: another {}", want.get(at).map_or("number of results", |w| &w.0)));
                return all(r, &jobs).with("job.json", serde_json::to_string_pretty(&jobs[k]).unwrap());
            }
        }
    }
    if disk {
        c.label("on disk");
        let d = root.join("again").to_str().unwrap().to_string();
        for (k, j) in jobs.iter().enumerate() {
            if let Job::Compile { files, dir: Some(from), opens, keep_going, flags_first } = j {
                if !write(&d, files) {
                    continue;
                }
                let moved = Job::Compile { files: files.clone(), dir: Some(d.clone()), opens: opens.clone(), keep_going: *keep_going, flags_first: *flags_first };
                let got = subject("evaluating at another place", || evaluate(&moved))?;
                c.evals += 1;
                // the paths differ, but nothing else
                let strip = |o: &Outcome, d: &str| -> Outcome {
                    o.iter().map(|(k, v)| (k.clone(), if k.starts_with("opening") || k == "files" { String::from_utf8_lossy(v).replace(d, "DIR").into_bytes() } else { v.clone() })).collect()
                };
                all(same("evaluating at another place", j, &strip(&want[k], from), &strip(&got, &d)), &jobs)?;
                // a file that changed is read anew
                if files.is_empty() {
                    continue;
                }
                let mut files = files.clone();
                let i = c.t.below(files.len());
                let old = files[i].1.clone();
                let new = vary(c, &old);
                files[i].1 = new.clone();
                std::fs::write(Path::new(from).join(&files[i].0), &new).expect("file");
                if !write(&d, &files) {
                    continue;
                }
                c.evals += 2;
                let got = subject("evaluating after a change", || (evaluate(j), evaluate(&moved)))?;
                std::fs::write(Path::new(from).join(&files[i].0), old).expect("file");
                let fresh = root.join(format!("fresh{k}")).to_str().unwrap().to_string();
                if !write(&fresh, &files) {
                    continue;
                }
                let Job::Compile { opens, keep_going, flags_first, .. } = &moved else { unreachable!() };
                let now = Job::Compile { files, dir: Some(fresh.clone()), opens: opens.clone(), keep_going: *keep_going, flags_first: *flags_first };
                let want = subject("evaluating elsewhere", || evaluate(&now))?;
                c.label("changed on disk");
                all(same("evaluating after a file was changed", &now, &strip(&want, &fresh), &strip(&got.0, from)), &jobs)?;
                all(same("evaluating after all files were replaced", &now, &strip(&want, &fresh), &strip(&got.1, &d)), &jobs)?;
            }
        }
    }
    Ok(())
}
fn all_r<T>(r: Result<T, Fail>, jobs: &[Job]) -> Result<T, Fail> {
    r.with("jobs.json", serde_json::to_string_pretty(jobs).unwrap())
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C25");
    let spec = Spec {
        prop: "C25",
        rule: "a case is a batch of two to five sources or programs, often with equal names or nearly equal texts, each evaluated in several orders, on several threads at once, in a new process with another directory and environment, from another place on disk, and with a file changed on disk; non-trivial: something was accepted, and something rejected or more than two jobs",
        cases: ctx.scale(6_000, 200_000),
        assumptions: vec!["thread interleavings are those the scheduler produces"],
        f: &|c| case(&s, c),
        threads: THREADS,
        shrink_budget: 1500,
    };
    go(ctx, spec, replay)
}
