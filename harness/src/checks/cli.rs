//! C23: the command-line tool against the library, both run in the same directory.
use super::program::STYLES;
use super::*;
use crate::progen;
use crate::scratch::Scratch;
use protox::Compiler;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::process::{Command, Stdio};

struct Invocation {
    includes: Vec<OsString>,
    files: Vec<OsString>,
    imports: bool,
    info: bool,
}

/// The library's answer, in a process of its own because it depends on the current directory.
/// usage: child C23 IMPORTS INFO OUT N INCLUDE... FILE...
pub fn child() -> i32 {
    let a: Vec<OsString> = std::env::args_os().skip(3).collect();
    let n: usize = a[3].to_str().unwrap().parse().unwrap();
    let r = (|| {
        let mut c = Compiler::new(&a[4..4 + n])?;
        c.include_imports(a[0] == "true").include_source_info(a[1] == "true");
        c.open_files(&a[4 + n..])?;
        Ok::<_, protox::Error>(c.encode_file_descriptor_set())
    })();
    match r {
        Ok(b) => {
            std::fs::write(&a[2], b).unwrap();
            0
        }
        Err(e) => {
            std::fs::write(&a[2], e.to_string()).unwrap();
            1
        }
    }
}

fn library(dir: &Path, out: &Path, i: &Invocation) -> Result<Result<Vec<u8>, String>, Fail> {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["C23", "child", &i.imports.to_string(), &i.info.to_string()])
        .arg(out)
        .arg(i.includes.len().to_string())
        .args(&i.includes)
        .args(&i.files)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .expect("library process");
    let b = std::fs::read(out).unwrap_or_default();
    let _ = std::fs::remove_file(out);
    match o.status.code() {
        Some(0) => Ok(Ok(b)),
        Some(1) => Ok(Err(String::from_utf8(b).unwrap())),
        _ => fail("library crashes", format!("{}\n{}", o.status, String::from_utf8_lossy(&o.stderr))),
    }
}

fn snapshot(dir: &Path) -> BTreeMap<OsString, Vec<u8>> {
    fn walk(d: &Path, out: &mut BTreeMap<OsString, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                out.insert(p.clone().into(), b"directory".to_vec());
                walk(&p, out);
            } else {
                out.insert(p.clone().into(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, &mut m);
    m
}

fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}

fn os(parts: &[&OsStr]) -> OsString {
    let mut s = OsString::new();
    parts.iter().for_each(|p| s.push(p));
    s
}

fn case(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let cfg = progen::Cfg {
        files: 3,
        opt: 8,
        custom: *c.t.pick(&[0, 0, 40]),
        google: 2,
        styles: STYLES,
        deep_public: 0,
        captured: 0,
        stray: 0,
    };
    let mut p = progen::generate(c.t, cfg);
    let mut broken = None;
    if c.t.pct(35) {
        broken = match c.t.below(4) {
            0 => super::program::mutate(c, &mut p),
            1 => {
                // cut off
                let f = c.t.below(p.files.len());
                let f = &mut p.files[f].src;
                let mut n = c.t.below(f.len() + 1);
                while !f.is_char_boundary(n) {
                    n -= 1;
                }
                f.truncate(n);
                Some("cut off")
            }
            2 => {
                let f = c.t.below(p.files.len());
                let more = *c.t.pick(&["}", "message", "message X { int32 a = 0; }", "\"", "package q; package r;", "import 'nowhere.proto';", "message Y { oneof o {} int32 \u{e9} = 1; }", "message Z { required_ x = 1; }"]);
                p.files[f].src.push_str(more);
                Some("more text")
            }
            _ => {
                // not the last one: something has to be compiled
                let f = c.t.below(p.files.len());
                p.files.remove(f);
                Some("file missing")
            }
        };
    }
    let w = s.fresh();
    let dir = s.root.join(&w).join("cwd");
    std::fs::create_dir_all(&dir).unwrap();

    // where the files are and how they are found
    let bad_utf8 = c.t.pct(4);
    let roots: Vec<OsString> = match c.t.below(4) {
        0 => vec![".".into()],
        1 if bad_utf8 => vec![OsStr::from_bytes(b"in\xffc").into()],
        1 => vec!["inc".into()],
        2 => vec!["inc a".into(), "dir/b".into()],
        _ => vec!["a".into(), "b".into(), ".".into()],
    };
    let home: Vec<usize> = p.files.iter().map(|_| c.t.below(roots.len())).collect();
    for (i, r) in roots.iter().enumerate() {
        let part = progen::Program {
            files: p.files.iter().zip(&home).filter(|(_, h)| **h == i).map(|(f, _)| f.clone()).collect(),
            feats: Default::default(),
            ents: vec![],
        };
        let d = dir.join(r);
        std::fs::create_dir_all(&d).unwrap();
        for f in &part.files {
            let path = d.join(&f.name);
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(path, &f.src).unwrap();
        }
    }
    let mut includes = roots.clone();
    for i in (1..includes.len()).rev() {
        includes.swap(i, c.t.below(i + 1));
    }
    if c.t.pct(10) {
        includes.pop();
    }
    if c.t.pct(10) {
        let at = c.t.below(includes.len() + 1);
        includes.insert(at, c.t.pick(&["nowhere", ".", "./inc", "..", "dir"]).into());
    }
    if c.t.pct(8) {
        // a directory outside the current one
        includes.iter_mut().for_each(|i| *i = dir.join(&*i).into());
        c.label("absolute include path");
    }
    let default = includes.is_empty() || includes == ["."] && c.t.pct(70);
    if default {
        includes = vec![".".into()];
        c.label("default include path");
    }

    // the input files
    let mut files: Vec<OsString> = vec![];
    for (f, h) in p.files.iter().zip(&home) {
        if c.t.pct(50) || files.is_empty() {
            let name = match c.t.weighted(&[40, 40, 5, 5]) {
                0 => f.name.clone().into(),
                1 => os(&[&roots[*h], OsStr::new("/"), OsStr::new(&f.name)]),
                2 => os(&[OsStr::new("./"), &roots[*h], OsStr::new("/"), OsStr::new(&f.name)]),
                _ => dir.join(&roots[*h]).join(&f.name).into(),
            };
            files.insert(c.t.below(files.len() + 1), name);
        }
    }
    if c.t.pct(6) {
        let at = c.t.below(files.len() + 1);
        files.insert(at, c.t.pick(&["nowhere.proto", "google/protobuf/any.proto", "../x.proto", ".", "inc", "-x.proto"]).into());
    }
    if c.t.pct(3) {
        files.clear();
    }
    let inv = Invocation { includes, files, imports: c.t.pct(50), info: c.t.pct(50) };

    // the command line
    let mut options: Vec<Vec<OsString>> = vec![];
    let spelled = |c: &mut Case, names: &[&str], short: bool, v: &OsStr| -> Vec<OsString> {
        let name = OsStr::new(*c.t.pick(names));
        match c.t.below(if short { 5 } else { 2 }) {
            0 => vec![name.into(), v.into()],
            1 => vec![os(&[name, OsStr::new("="), v])],
            n => {
                let s = OsStr::new(if names[0] == "--include" { "-I" } else { "-o" });
                match n {
                    2 => vec![s.into(), v.into()],
                    3 => vec![os(&[s, v])],
                    _ => vec![os(&[s, OsStr::new("="), v])],
                }
            }
        }
    };
    if !default {
        for i in &inv.includes {
            options.push(spelled(c, &["--include", "--proto_path"], true, i));
        }
    }
    let keep = options.len();
    if inv.imports {
        options.push(vec![c.t.pick(&["--include-imports", "--include_imports"]).into()]);
    }
    if inv.info {
        options.push(vec![c.t.pick(&["--include-source-info", "--include_source_info"]).into()]);
    }
    let mut unwritable = false;
    let output: Option<OsString> = match c.t.weighted(&[60, 12, 8, 12, 4, 4]) {
        0 => Some("out.bin".into()),
        1 => None,
        2 => {
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            Some("sub/o.bin".into())
        }
        3 => {
            std::fs::write(dir.join("old.bin"), vec![b'x'; *c.t.pick(&[0, 3, 100_000])]).unwrap();
            c.label("existing output");
            Some("old.bin".into())
        }
        4 => {
            std::fs::create_dir_all(dir.join("isdir")).unwrap();
            unwritable = true;
            Some("isdir".into())
        }
        _ => {
            unwritable = true;
            Some("no/such/dir/o.bin".into())
        }
    };
    if let Some(o) = &output {
        options.push(spelled(c, &["--output", "--descriptor_set_out"], true, o));
    }
    let unknown = c.t.pct(2);
    if unknown {
        options.push(vec![c.t.pick(&["--include-import", "-z", "--plugin=x", "--descriptor-set", "--source-info"]).into()]);
    }
    // the order of the include paths counts, that of everything else does not
    let dashes = inv.files.iter().any(|f| f.as_bytes().starts_with(b"-"));
    let mut items: Vec<(bool, Vec<OsString>)> = options[..keep].iter().map(|o| (true, o.clone())).collect();
    for o in &options[keep..] {
        let at = c.t.below(items.len() + 1);
        items.insert(at, (true, o.clone()));
    }
    let mut args: Vec<OsString> = vec![];
    if dashes || c.t.pct(15) {
        args.extend(items.into_iter().flat_map(|i| i.1));
        args.push("--".into());
        args.extend(inv.files.iter().cloned());
    } else {
        let mut at = 0;
        for f in &inv.files {
            at = c.t.range(at, items.len());
            items.insert(at, (false, vec![f.clone()]));
            at += 1;
        }
        args.extend(items.into_iter().flat_map(|i| i.1));
    }
    let art = format!("// protox {args:?}\n// output unwritable: {unwritable}\n{}", p.files.iter().zip(&home).map(|(f, h)| format!("// ===== {:?} {}\n{}\n", roots[*h], f.name, f.src)).collect::<String>());
    c.key = hash_of(&art);
    c.sample = Some(art.clone());
    c.label(broken.unwrap_or("not broken"));
    c.label_if(inv.files.len() > 1, "several files");

    let before = snapshot(&dir);
    let model = library(&dir, &s.root.join(&w).join("model"), &inv)?;
    let o = Command::new(protox_bin())
        .args(&args)
        .current_dir(&dir)
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .output()
        .expect("protox binary");
    let after = snapshot(&dir);
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    let check = || -> Result<(), Fail> {
        let Some(code) = o.status.code() else {
            return fail("killed by a signal", format!("{}\n{stderr}", o.status));
        };
        if !o.stdout.is_empty() {
            return fail("writes to stdout", String::from_utf8_lossy(&o.stdout));
        }
        let usage = unknown || inv.files.is_empty();
        let ok = !usage && model.is_ok() && !unwritable;
        if (code == 0) != ok {
            return fail(
                if ok { "fails" } else if usage { "accepts wrong usage" } else { "succeeds" },
                format!("exit status {code}, library: {:?}\n{stderr}", model.as_ref().map(|b| format!("{} bytes", b.len()))),
            );
        }
        let mut want = before.clone();
        if ok {
            if let Some(out) = &output {
                want.insert(dir.join(out).into(), model.clone().unwrap());
            }
            if !stderr.is_empty() {
                return fail("success with messages", stderr.clone());
            }
        } else {
            if code == 101 {
                return fail("panics", stderr.clone());
            }
            if stderr.trim().is_empty() {
                return fail("fails silently", format!("exit status {code}"));
            }
            if let (Err(e), false) = (&model, usage) {
                if !letters(&stderr).contains(&letters(e)) {
                    return fail("error not shown", format!("library: {e}\nstderr: {stderr}"));
                }
            }
        }
        for (n, b) in &after {
            match want.get(n) {
                Some(w) if w == b => (),
                Some(w) => return fail(if ok { "output differs" } else { "file changed on failure" }, format!("{n:?}: {} bytes, expected {}", b.len(), w.len())),
                None => return fail(if ok { "unexpected file" } else { "file written on failure" }, format!("{n:?}")),
            }
        }
        if let Some(n) = want.keys().find(|n| !after.contains_key(*n)) {
            return fail("output missing", format!("{n:?}"));
        }
        Ok(())
    };
    c.nontrivial = output.is_some() && !inv.files.is_empty();
    c.label(match &model {
        _ if unknown || inv.files.is_empty() => "wrong usage",
        Ok(_) if unwritable => "output not writable",
        Ok(_) => "compiles",
        Err(_) => "rejected",
    });
    check().map_err(|f| f.with("program.txt", art))
}

fn protox_bin() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("protox")
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C23");
    let spec = Spec {
        prop: "C23",
        rule: "a case is one command line over a generated program in a directory of its own, with the library run on the same arguments; non-trivial: an output path and input files are given",
        cases: ctx.scale(40_000, 800_000),
        assumptions: vec!["both run in the same directory with the same arguments"],
        f: &|c| case(&s, c),
        threads: THREADS,
        shrink_budget: 600,
    };
    go(ctx, spec, replay)
}
