//! Runs a check in a child process and watches it: when the code under test crashes the process,
//! exhausts its memory or does not return, the case is found, reproduced alone, shrunk (one process
//! per attempt) and reported like any other failure.
use crate::engine::*;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

/// Processor time one case may take; no case takes more than a second or so.
const CPU_LIMIT: f64 = 60.0;
/// One-second polls during which one case may be running (for checks that wait for other programs).
const POLL_LIMIT: u32 = 180;
const SLOT: u64 = 24;
const SLOTS: usize = 64;

/// What each worker thread is doing: (case + 1, thread id, number of cases begun).
pub struct Slots(Option<std::fs::File>);

impl Slots {
    pub fn open() -> Slots {
        Slots(std::env::var_os("PBT_WORKER").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    pub fn note(&self, worker: usize, case: u64) {
        thread_local! {
            static TID: u64 = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name()?.to_str()?.parse().ok())
                .unwrap_or(0);
            static BEGUN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
        }
        let Some(f) = &self.0 else { return };
        if worker >= SLOTS {
            return;
        }
        let n = BEGUN.with(|b| {
            b.set(b.get() + 1);
            b.get()
        });
        let mut buf = [0u8; SLOT as usize];
        buf[..8].copy_from_slice(&(case + 1).to_le_bytes());
        buf[8..16].copy_from_slice(&TID.with(|t| *t).to_le_bytes());
        buf[16..].copy_from_slice(&n.to_le_bytes());
        let _ = f.write_all_at(&buf, worker as u64 * SLOT);
    }
}

fn read_slots(p: &Path) -> Vec<(u64, u64, u64)> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(SLOT as usize)
        .map(|c| {
            let n = |i: usize| u64::from_le_bytes(c[i..i + 8].try_into().unwrap());
            (n(0), n(8), n(16))
        })
        .filter(|s| s.0 != 0)
        .collect()
}

/// user and system time of a process or one of its threads, in seconds
fn cpu(stat: &str) -> Option<f64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn spawn(args: &[String], worker: Option<&Path>, memory_kib: u64, quiet: bool) -> Child {
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -v {memory_kib}; exec \"$0\" \"$@\""));
    c.arg(std::env::current_exe().unwrap()).args(args).process_group(0);
    c.env("PBT_WORKER", worker.unwrap_or(Path::new("/nonexistent")));
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    c.spawn().expect("harness: cannot start a child")
}

fn end(child: &mut Child, prop: &str) -> Option<std::process::ExitStatus> {
    let pid = child.id();
    let _ = Command::new("kill").args(["-9", "--", &format!("-{pid}")]).stderr(std::process::Stdio::null()).status();
    let st = child.wait().ok();
    for base in ["/dev/shm", "/tmp"] {
        let _ = std::fs::remove_dir_all(format!("{base}/pbt-{prop}-{pid}"));
    }
    st
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Code(i32),
    Crash(String),
    Hang,
}

/// Runs one case in a process of its own.
fn probe_case(prop: &str, mode: &str, index: u64, tape: &Path, cpu_limit: f64, polls: u32) -> End {
    let args = [prop.to_string(), mode.into(), index.to_string(), tape.display().to_string()];
    let mut c = spawn(&args, None, 8 << 20, true);
    let stat = format!("/proc/{}/stat", c.id());
    let mut n = 0u32;
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            end(&mut c, prop);
            return match st.code() {
                Some(k) => End::Code(k),
                None => End::Crash(format!("signal {}", st.signal().unwrap_or(0))),
            };
        }
        std::thread::sleep(Duration::from_millis(if n < 200 { 5 } else { 100 }));
        n += 1;
        if cpu(&stat).is_some_and(|t| t > cpu_limit) || n > 200 + polls * 10 {
            end(&mut c, prop);
            return End::Hang;
        }
    }
}

pub fn supervise(ctx: &Ctx, prop: &str, mode: &str, replay: Option<&str>) -> i32 {
    let dir = PathBuf::from(format!("/dev/shm/pbt-watch-{}", std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("HARNESS ERROR no scratch directory");
        return 2;
    }
    let code = watch(ctx, prop, mode, replay, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn watch(ctx: &Ctx, prop: &str, mode: &str, replay: Option<&str>, dir: &Path) -> i32 {
    let slots = dir.join("slots");
    std::fs::write(&slots, []).unwrap();
    let mut args = vec![prop.to_string(), mode.to_string()];
    args.extend(replay.map(String::from));
    let mut child = spawn(&args, Some(&slots), 26 << 20, false);
    let pid = child.id();
    let mut seen: std::collections::HashMap<u64, (u64, f64, u32)> = Default::default();
    let mut last_poll = Instant::now();
    let mut stuck = None;
    let status = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(if ctx.start.elapsed().as_secs() < 3 { 5 } else { 50 }));
        if last_poll.elapsed() < Duration::from_secs(1) {
            continue;
        }
        last_poll = Instant::now();
        for (case, tid, begun) in read_slots(&slots) {
            let Some(now) = cpu(&format!("/proc/{pid}/task/{tid}/stat")) else { continue };
            let e = seen.entry(tid).or_insert((begun, now, 0));
            if e.0 != begun {
                *e = (begun, now, 0);
            }
            e.2 += 1;
            // shrinking (begun again on thread 0's slot) has its own deadline
            if now - e.1 > CPU_LIMIT || e.2 > POLL_LIMIT {
                stuck = Some(case - 1);
            }
        }
        if stuck.is_some() {
            break None;
        }
    };
    if let Some(code) = status.and_then(|s| s.code()) {
        end(&mut child, prop);
        return code;
    }
    let how = match status {
        Some(s) => format!("the process ended by signal {}", s.signal().unwrap_or(0)),
        None => format!("a case did not end within {CPU_LIMIT} s of processor time or {POLL_LIMIT} s"),
    };
    end(&mut child, prop);
    eprintln!("{how}; looking for the case");
    let running = read_slots(&slots);
    let begun: u64 = running.iter().map(|s| s.2).sum();
    if let Some(path) = replay {
        println!("[crash] {how}");
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    let mut cases: Vec<u64> = running.iter().map(|s| s.0 - 1).collect();
    if let Some(i) = stuck {
        cases.retain(|c| *c == i);
    }
    cases.sort_unstable();
    cases.dedup();
    let tape = dir.join("tape");
    for i in cases {
        let r = probe_case(prop, "record", i, &tape, CPU_LIMIT, POLL_LIMIT);
        if matches!(r, End::Code(0 | 2)) {
            continue;
        }
        let words = |b: Vec<u8>| b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect::<Vec<u32>>();
        let first = words(std::fs::read(&tape).unwrap_or_default());
        let n0 = first.len();
        let (data, runs) = shrink(prop, i, first, &r, &tape);
        let (sig, msg) = match &r {
            End::Crash(s) => ("crash", format!("the process ended by {s} in this case")),
            End::Hang => ("does not end", format!("the case does not end ({how})")),
            End::Code(_) => ("failed after a crash", format!("{how}; this case fails alone")),
        };
        let f = Fail { sig: sig.into(), msg, artefacts: vec![] };
        let path = write_replay(ctx, prop, i, &data, &f);
        println!("case {i}: shrunk from {n0} to {} draws in {runs} runs\n[{}] {}", data.len(), f.sig, f.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
        let cov = serde_json::json!({
            "evaluations": begun.max(1), "cases": begun.max(1), "distinct_nontrivial": 0, "nontrivial_cases": 0,
            "rule": "the run ended early: a case ended the process or did not end", "samples": [], "classes": {},
        });
        write_evidence_raw(ctx, prop, cov, &["random exploration"], 1);
        return 1;
    }
    eprintln!("HARNESS ERROR {how}, and no case does so alone");
    2
}

fn shrink(prop: &str, index: u64, first: Vec<u32>, like: &End, tape: &Path) -> (Vec<u32>, usize) {
    let deadline = Instant::now() + Duration::from_secs(120);
    let mut best = first;
    let mut runs = 0;
    let same = |e: &End| std::mem::discriminant(e) == std::mem::discriminant(like) && !matches!(e, End::Code(0 | 2));
    let mut try_it = |cand: &[u32]| -> Option<bool> {
        if Instant::now() > deadline {
            return None;
        }
        runs += 1;
        std::fs::write(tape, cand.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
        Some(same(&probe_case(prop, "probe", index, tape, 10.0, 30)))
    };
    // as few draws as possible from the front, then without the blocks that do not matter
    let mut size = (best.len() / 2).max(1);
    'all: while size >= 1 {
        let mut i = 0;
        while i < best.len() {
            let to = (i + size).min(best.len());
            let mut cand = best.clone();
            cand.drain(i..to);
            match try_it(&cand) {
                None => break 'all,
                Some(true) => best = cand,
                Some(false) => {
                    let mut cand = best.clone();
                    cand[i..to].iter_mut().for_each(|v| *v = 0);
                    if cand != best {
                        match try_it(&cand) {
                            None => break 'all,
                            Some(true) => best = cand,
                            Some(false) => {}
                        }
                    }
                    i = to;
                }
            }
        }
        size /= 2;
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, runs)
}
