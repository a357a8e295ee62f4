//! C01: parsing is total.  The parser runs in a child process, on a thread with the default 2 MiB
//! stack, with bounded memory, so that aborts are seen as such.
use super::errors::collect;
use super::*;
use crate::fuzzgen;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::Duration;

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
const SIGXCPU: i32 = 24;

struct Worker {
    child: Child,
    sock: UnixStream,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(cpu: Option<u64>) -> Worker {
    let (mine, theirs) = UnixStream::pair().unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["C01", "child"]).stdin(Stdio::from(OwnedFd::from(theirs))).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let lim = |r, v| setrlimit(r, &Rlimit { cur: v, max: v });
            lim(RLIMIT_AS, 6 << 30);
            lim(RLIMIT_CORE, 0);
            if let Some(c) = cpu {
                setrlimit(RLIMIT_CPU, &Rlimit { cur: c, max: c + 2 });
            }
            Ok(())
        });
    }
    Worker { child: cmd.spawn().expect("spawn"), sock: mine }
}

/// stands for a text of more than i32::MAX bytes; the number that follows is by how many
const HUGE_TEXT: &str = "\u{1}huge\u{1}";
const HUGE: u32 = u32::MAX;

enum Answer {
    Ok,
    Err,
    Panic(String),
    Died(std::process::ExitStatus),
    Timeout,
}

fn ask(w: &mut Worker, name: &str, src: &str, wall: Option<Duration>) -> Answer {
    let mut req = vec![];
    match src.strip_prefix(HUGE_TEXT) {
        Some(over) => {
            req.extend(HUGE.to_le_bytes());
            req.extend(over.parse::<u32>().unwrap_or(1).to_le_bytes());
        }
        None => {
            req.extend((name.len() as u32).to_le_bytes());
            req.extend((src.len() as u32).to_le_bytes());
            req.extend(name.as_bytes());
            req.extend(src.as_bytes());
        }
    }
    w.sock.set_read_timeout(wall).unwrap();
    let r = (|| -> std::io::Result<(u8, Vec<u8>)> {
        w.sock.write_all(&req)?;
        let mut h = [0u8; 5];
        w.sock.read_exact(&mut h)?;
        let n = u32::from_le_bytes(h[1..].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        w.sock.read_exact(&mut b)?;
        Ok((h[0], b))
    })();
    match r {
        Ok((0, _)) => Answer::Ok,
        Ok((1, _)) => Answer::Err,
        Ok((_, m)) => Answer::Panic(String::from_utf8_lossy(&m).into_owned()),
        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Answer::Timeout,
        Err(_) => match w.child.wait() {
            Ok(s) => Answer::Died(s),
            Err(e) => panic!("harness: waiting for the child: {e}"),
        },
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

const CPU_LIMIT: u64 = 60;

/// Ok(accepted)
fn evaluate(name: &str, src: &str) -> Result<bool, Fail> {
    let a = WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let a = ask(w.get_or_insert_with(|| spawn(None)), name, src, Some(Duration::from_secs(20)));
        if !matches!(a, Answer::Ok | Answer::Err | Answer::Panic(_)) {
            *w = None;
        }
        a
    });
    let a = match a {
        Answer::Ok => return Ok(true),
        Answer::Err => return Ok(false),
        Answer::Panic(m) => return fail("panic", format!("panicked: {m}")),
        a => a,
    };
    // confirm in a fresh process, with a limit on processor time instead of wall time
    let mut w = spawn(Some(CPU_LIMIT));
    match ask(&mut w, name, src, None) {
        Answer::Ok => Ok(true),
        Answer::Err => Ok(false),
        Answer::Panic(m) => fail("panic", format!("panicked: {m}")),
        Answer::Died(s) if s.signal() == Some(SIGXCPU) || s.signal() == Some(9) => match a {
            Answer::Timeout => {
                fail("does not end", format!("no result after {CPU_LIMIT} s of processor time for {} bytes", src.len()))
            }
            _ => panic!("harness: child killed"),
        },
        Answer::Died(s) => fail("abort", format!("the process died: {s}")),
        Answer::Timeout => unreachable!(),
    }
}

pub fn child() -> i32 {
    let mut sock = unsafe { UnixStream::from_raw_fd(0) };
    // the default stack size of Rust threads
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || loop {
            let mut h = [0u8; 8];
            if sock.read_exact(&mut h).is_err() {
                return;
            }
            let n = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
            let m = u32::from_le_bytes(h[4..].try_into().unwrap()) as usize;
            // a text too long to send: that many zero bytes, which stay untouched when rejected by length
            let huge = n == HUGE as usize;
            let mut b = if huge { vec![0; (1 << 31) - 1 + m] } else { vec![0; n + m] };
            let n = if huge { 0 } else { n };
            if !huge && sock.read_exact(&mut b).is_err() {
                return;
            }
            let s = if huge { unsafe { String::from_utf8_unchecked(b) } } else { String::from_utf8(b).unwrap() };
            let (name, src) = s.split_at(n);
            let r = subject("parse", || match protox_parse::parse(name, src) {
                Ok(_) => 0u8,
                Err(e) => {
                    let _ = e.span();
                    let _ = e.file().len();
                    let _ = format!("{e:#?}");
                    std::hint::black_box(collect(&e));
                    // rendering of very long lines is limited by the report handler, not by protox
                    // (it shows a tab as four columns)
                    if src.len() + 3 * src.matches('\t').count() < 20_000 {
                        let mut out = String::new();
                        let _ = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor())
                            .render_report(&mut out, &e);
                        let _ = miette::NarratableReportHandler::new().render_report(&mut out, &e);
                    }
                    1
                }
            });
            let (k, m) = match r {
                Ok(k) => (k, String::new()),
                Err(f) => (2, f.msg),
            };
            let mut out = vec![k];
            out.extend((m.len() as u32).to_le_bytes());
            out.extend(m.as_bytes());
            if sock.write_all(&out).is_err() {
                return;
            }
        })
        .unwrap();
    let _ = h.join();
    0
}

/// repetitive texts: deep nesting, long tokens and lists, many errors
fn repeated(t: &mut crate::engine::Tape, labels: &mut Vec<String>) -> String {
    const PAT: &[(&str, &str, &str, &str)] = &[
        ("nested messages", "message M {", "}", ""),
        ("nested groups", "optional group G = 1 {", "}", "message M {"),
        ("nested oneof groups", "oneof o { group G = 1 {", "}}", "message M {"),
        ("nested extend groups", "extend M { optional group G = 1 {", "}}", "message M {"),
        ("mixed nesting", "message M { optional group G = 1 {", "}}", ""),
        ("nested aggregates", "a {", "}", "option o = {"),
        ("nested aggregate lists", "a: [<", ">]", "option o = {"),
        ("parentheses", "(", ")", "option "),
        ("brackets", "[", "]", "message M { optional int32 a = 1 "),
        ("maps", "map<int32,", ">", "message M { "),
        ("dots", "a.", "a", "package "),
        ("type name", ".a", "", "message M { optional "),
        ("option name", "(a).b.", "", "option "),
        ("identifier", "abc", "", "message "),
        ("digits", "9", "", "message M { optional int32 a = "),
        ("octal digits", "07", "", "message M { optional int32 a = 0"),
        ("hex digits", "fF", "", "message M { optional int32 a = 0x"),
        ("float digits", "1234567890", "", "option a = 0."),
        ("zeros", "0", "", "option a = 1e"),
        ("string", "abc\\n", "\"", "option a = \""),
        ("strings", "\"a\" ", "", "option a = "),
        ("bad escapes", "\\q", "\"", "option a = \""),
        ("NULs", "\0", "", "option a = \""),
        ("line comments", "// a\n", "", ""),
        ("detached comments", "/* a */\n\n", "", ""),
        ("block comment lines", "\n * a", "*/", "/*"),
        ("nested block comments", "/*", "*/", ""),
        ("empty statements", ";", "", ""),
        ("empty messages", "message M {}", "", ""),
        ("fields", "optional int32 a = 1;", "}", "message M {"),
        ("bad fields", "required map<float, int32> a = 0;", "}", "message M {"),
        ("enum values", "A = 1;", "}", "enum E {"),
        ("reserved ranges", "1 to 2,", "", "message M { reserved "),
        ("extension ranges with options", "1 to 2,", "4 [a=1,b=-c];}", "message M { extensions "),
        ("options", "a=1,", "", "message M { optional int32 a = 1 ["),
        ("oneof fields", "int32 a = 1;", "}}", "message M { oneof o {"),
        ("oneofs", "oneof o {}", "}", "message M {"),
        ("imports", "import \"a\";", "", ""),
        ("packages", "package a;", "", ""),
        ("methods", "rpc A(B) returns (C) {}", "}", "service S {"),
        ("stray characters", "@ ", "", ""),
        ("stray words", "foo ", "", ""),
        ("hash comments", "#\n", "", ""),
        ("newlines", "\n", "message", ""),
        ("spaces", " ", "message", ""),
        ("carriage returns", "\r", "message", ""),
        ("multibyte", "é", "", ""),
        ("multibyte comment", "😀", "", "// "),
        ("signs", "-", "1", "option a = "),
        ("proto3 optional", "optional int32 a = 1;", "}", "syntax = \"proto3\"; message M {"),
    ];
    let (label, p, close, pre) = *t.pick(PAT);
    labels.push(format!("long: {label}"));
    let big = [8usize, 64, 70, 300, 3000, 20_000];
    let top = big[t.weighted(&[8, 8, 8, 8, 4, 1])];
    let n = t.range(0, top);
    let mut s = String::new();
    if t.pct(10) {
        s.push_str("syntax = \"proto3\";");
    }
    s.push_str(pre);
    s.push_str(&p.repeat(n));
    match t.below(4) {
        0 => {}
        1 => s.push_str(close),
        2 => {
            s.push_str(&close.repeat(n));
            if !pre.is_empty() {
                s.push_str("};");
            }
        }
        _ => {
            s.push_str(&crate::fuzzgen::soup(t));
            s.push_str(&close.repeat(n));
        }
    }
    if t.pct(10) {
        s = s.replace(' ', "");
    }
    s
}

fn c01(c: &mut Case) -> Result<(), Fail> {
    let mut labels = vec![];
    let src = match c.t.weighted(&[85, 15]) {
        0 => fuzzgen::text(c.t, &mut labels),
        _ => repeated(c.t, &mut labels),
    };
    // (the case with this number, so that there are few: each takes 2 GiB of address space)
    let src = if c.index % 50_000 == 49_999 {
        c.label("more than 2 GiB");
        format!("{HUGE_TEXT}{}", c.t.range(1, 100_000))
    } else {
        src
    };
    let name = match c.t.weighted(&[90, 5, 5]) {
        0 => super::file_name(c.t).to_string(),
        1 => fuzzgen::chars(c.t),
        _ => String::new(),
    };
    for l in &labels {
        c.label(l);
    }
    c.key = hash_of(&src);
    if src.len() < 3000 {
        c.sample = Some(src.clone());
    }
    c.nontrivial = src.len() > 10;
    let ok = evaluate(&name, &src).with("source.proto", &src).with("name", &name)?;
    c.label(if ok { "accepted" } else { "rejected" });
    if ok && src.starts_with(HUGE_TEXT) {
        return fail("huge", "a text of more than i32::MAX bytes is accepted");
    }
    Ok(())
}

pub fn run_c01(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C01",
        rule: "a case is one source text (a generated file damaged at token or character level, a soup, or a repetitive text up to megabytes: deep nesting, long tokens, many errors), parsed in a child process with a 2 MiB stack; any error is formatted in every way; non-trivial: longer than 10 bytes",
        cases: ctx.scale(350_000, 6_000_000),
        assumptions: vec![
            "stack of 2 MiB (the default of Rust threads), 6 GiB of address space",
            "a text of at most a few MB that takes more than 60 s of processor time counts as not ending",
            "graphical rendering is only exercised for texts below 20 kB (tabs count as four): miette itself cannot render columns above 65535",
        ],
        f: &c01,
        threads: THREADS,
        shrink_budget: 3000,
    };
    go(ctx, spec, replay)
}
