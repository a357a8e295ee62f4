//! C20, C21: whole programs against protoc, and the outputs of one compiler against each other.
use super::*;
use crate::gen::TK;
use crate::layout::{render, Style};
use crate::progen::{self, Program};
use crate::scratch::Scratch;
use protox::prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
use prost::Message;
use protox::Compiler;
use std::fmt::Write as _;
use std::process::{Command, Stdio};

pub fn show(p: &Program) -> String {
    let mut s = String::new();
    for f in &p.files {
        let _ = writeln!(s, "// ===== {}\n{}", f.name, f.src);
    }
    s
}

pub fn write_files(dir: &str, p: &Program) {
    for f in &p.files {
        let path = format!("{dir}/{}", f.name);
        std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).unwrap();
        std::fs::write(&path, &f.src).unwrap();
    }
}

pub fn protoc(dir: &str, files: &[String], imports: bool, info: bool) -> Result<Vec<u8>, String> {
    let out = format!("{dir}/out.bin");
    let mut c = Command::new("protoc");
    c.arg(format!("-I{dir}")).arg("-I/usr/include");
    if imports {
        c.arg("--include_imports");
    }
    if info {
        c.arg("--include_source_info");
    }
    let o = c
        .arg(format!("--descriptor_set_out={out}"))
        .args(files.iter().map(|f| format!("{dir}/{f}")))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("protoc");
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    Ok(std::fs::read(&out).expect("protoc output"))
}

/// Decodes an encoded set and brings what may be spelled in several ways into one form.
pub fn canonical(pool: &DescriptorPool, bytes: &[u8], google: bool) -> Result<DynamicMessage, String> {
    let d = pool.get_message_by_name("google.protobuf.FileDescriptorSet").ok_or("no FileDescriptorSet")?;
    let mut m = DynamicMessage::decode(d, bytes).map_err(|e| e.to_string())?;
    if let Some(v) = m.get_field_by_name_mut("file") {
        let files = v.as_list_mut().unwrap();
        if !google {
            files.retain(|f| !get(f, "name").as_str().unwrap().starts_with("google/protobuf/"));
        }
        for f in files {
            let f = f.as_message_mut().unwrap();
            if f.has_field_by_name("source_code_info") {
                let i = f.get_field_by_name_mut("source_code_info").unwrap();
                let l = i.as_message_mut().unwrap().get_field_by_name_mut("location").unwrap();
                for l in l.as_list_mut().unwrap() {
                    // protoc leaves out comments without text
                    let l = l.as_message_mut().unwrap();
                    for n in ["leading_comments", "trailing_comments"] {
                        if l.get_field_by_name(n).unwrap().as_str() == Some("") {
                            l.clear_field_by_name(n);
                        }
                    }
                    let d = l.get_field_by_name_mut("leading_detached_comments").unwrap();
                    d.as_list_mut().unwrap().retain(|c| c.as_str() != Some(""));
                }
                l.as_list_mut().unwrap().sort_by_cached_key(|l| (ints(l, "path"), ints(l, "span")));
            }
            let ms = f.get_field_by_name_mut("message_type").unwrap();
            ms.as_list_mut().unwrap().iter_mut().for_each(msg);
            fields(f, "extension");
            // protoc gives a method with an empty body an empty options message
            let ss = f.get_field_by_name_mut("service").unwrap();
            for s in ss.as_list_mut().unwrap() {
                let ms = s.as_message_mut().unwrap().get_field_by_name_mut("method").unwrap();
                for m in ms.as_list_mut().unwrap() {
                    let m = m.as_message_mut().unwrap();
                    let empty = m.has_field_by_name("options") && m.get_field_by_name("options").unwrap().as_message().unwrap().encode_to_vec().is_empty();
                    if empty {
                        m.clear_field_by_name("options");
                    }
                }
            }
        }
    }
    return Ok(m);

    fn ints(v: &Value, n: &str) -> Vec<i32> {
        get(v, n).as_list().unwrap().iter().map(|v| v.as_i32().unwrap()).collect()
    }
    fn get(v: &Value, n: &str) -> Value {
        v.as_message().unwrap().get_field_by_name(n).unwrap().into_owned()
    }
    fn msg(v: &mut Value) {
        let m = v.as_message_mut().unwrap();
        fields(m, "field");
        fields(m, "extension");
        if let Some(n) = m.get_field_by_name_mut("nested_type") {
            n.as_list_mut().unwrap().iter_mut().for_each(msg);
        }
    }
    fn fields(m: &mut DynamicMessage, n: &str) {
        let l = m.get_field_by_name_mut(n).unwrap();
        for f in l.as_list_mut().unwrap() {
            let f = f.as_message_mut().unwrap();
            let ty = f.get_field_by_name("type").unwrap().as_enum_number().unwrap();
            if f.has_field_by_name("default_value") && (ty == 1 || ty == 2) {
                let d = f.get_field_by_name("default_value").unwrap().as_str().unwrap().to_string();
                let c = match d.parse::<f64>() {
                    // a float's default is printed by protoc after conversion
                    Ok(v) if ty == 2 => format!("{:?}", v as f32),
                    Ok(v) => format!("{v:?}"),
                    Err(e) => format!("unparsable {d:?}: {e}"),
                };
                f.set_field_by_name("default_value", Value::String(c));
            }
        }
    }
}

pub fn text(m: &DynamicMessage) -> String {
    format!("{m:#}")
}

/// first difference of two texts with its enclosing blocks
pub fn text_diff(exp: &str, act: &str) -> Option<(String, String)> {
    if exp == act {
        return None;
    }
    let (el, al): (Vec<_>, Vec<_>) = (exp.lines().collect(), act.lines().collect());
    let mut i = 0;
    while i < el.len() && i < al.len() && el[i] == al[i] {
        i += 1;
    }
    let (mut ctx, mut ind) = (vec![], usize::MAX);
    for l in el[..i.min(el.len())].iter().rev() {
        let k = l.len() - l.trim_start().len();
        if k < ind && l.ends_with('{') {
            ind = k;
            ctx.push(l.trim().trim_end_matches([' ', '{', ':']).to_string());
        }
    }
    ctx.reverse();
    let from = i.saturating_sub(6);
    let show = |v: &[&str]| v[from.min(v.len())..(i + 6).min(v.len())].join("\n");
    Some((ctx.join("."), format!("expected:\n{}\nactual:\n{}", show(&el), show(&al))))
}

pub fn library(dir: &str, files: &[String], imports: bool, info: bool) -> Result<(Vec<u8>, DescriptorPool), protox::Error> {
    let mut c = Compiler::new([dir])?;
    c.include_imports(imports).include_source_info(info);
    c.open_files(files.iter().map(|f| format!("{dir}/{f}")))?;
    Ok((c.encode_file_descriptor_set(), c.descriptor_pool()))
}

pub const STYLES: &[Style] = &[Style::Plain, Style::Ws, Style::Decl, Style::Comments];

fn protoc_case(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    if c.t.pct(1) {
        return known_case(s, c);
    }
    let cfg = progen::Cfg {
        files: 4,
        opt: *c.t.pick(&[12, 5, 40]),
        custom: *c.t.pick(&[40, 90]),
        google: 6,
        styles: STYLES,
        deep_public: 0,
        captured: 0,
        stray: 0,
    };
    let mut p = progen::generate(c.t, cfg);
    let dir = s.fresh();
    // the files to compile
    let mut files: Vec<String> = vec![];
    for f in &p.files {
        if c.t.pct(40) {
            files.insert(c.t.below(files.len() + 1), f.name.clone());
        }
    }
    let last = p.files.last().unwrap().name.clone();
    if !files.contains(&last) {
        files.push(last);
    }
    let fuzz = std::env::var_os("PBT_FUZZ").is_some();
    let mutation = match c.t.weighted(if fuzz { &[0, 0, 1] } else { &[58, 30, 12] }) {
        0 => None,
        1 => mutate(c, &mut p),
        _ => {
            scramble(c, &mut p);
            Some("scrambled")
        }
    };
    for f in &mut p.files {
        // protoc counts a tab as up to eight columns and keeps carriage returns in comments
        f.src = f.src.replace("\r\n", "\n").replace(['\t', '\r'], " ");
    }
    write_files(&dir, &p);
    let want = protoc(&dir, &files, true, true);
    let got = subject("compile", || library(&dir, &files, true, true))?;
    for f in &p.feats {
        c.label(f);
    }
    c.key = hash_of(&show(&p));
    c.nontrivial = p.feats.contains("reference to another file") || p.feats.contains("custom option use") || mutation.is_some();
    let what = mutation.unwrap_or("none");
    c.label(&format!("mutation: {what}"));
    c.sample = Some(show(&p));
    let art = show(&p);
    let (want, got) = match (want, got) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(e), Err(_)) => {
            if what == "none" {
                return fail("generator: both reject", e).with("program.txt", art);
            }
            c.label("rejected by both");
            return Ok(());
        }
        (Err(e), Ok(_)) if what == "scrambled" => {
            c.label("scrambled: only protoc rejects");
            // (protoc loses track of the syntax after an error about enum aliases)
            if syntax_error(&e) && !e.contains("enum aliases") && !p.files.iter().any(|f| looser(&f.toks)) {
                return fail("syntax error accepted", format!("files {files:?}\nprotoc: {e}")).with("program.txt", art);
            }
            return Ok(());
        }
        (Ok(_), Err(e)) if what == "scrambled" && (!e.is_parse() || STRICTER.iter().any(|m| format!("{e:?}").contains(m))) => {
            c.label("scrambled: only protox rejects");
            return Ok(());
        }
        (Err(e), Ok(_)) => return fail(format!("accepted, mutation {what}"), format!("files {files:?}\nprotoc: {e}")).with("program.txt", art),
        (Ok(_), Err(_)) if what != "none" && deep(&p) => {
            c.label("mutation needs a chain of public imports");
            return Ok(());
        }
        (Ok(_), Err(e)) => return fail(format!("rejected, mutation {what}"), format!("files {files:?}\nprotox: {e:?}")).with("program.txt", art),
    };
    c.label_if(what != "none", "mutation still valid");
    if what == "scrambled" && p.files.iter().any(|f| negative_reserved(&f.toks)) {
        return Ok(());
    }
    let google = c.t.pct(2);
    let mut pool = DescriptorPool::new();
    if let Err(e) = pool.decode_file_descriptor_set(&*want) {
        return fail("protoc's output not loadable", format!("{e:?}")).with("program.txt", art);
    }
    if pool.get_message_by_name("google.protobuf.FileDescriptorSet").is_none() {
        pool = DescriptorPool::global();
    }
    let w = canonical(&pool, &want, google).map_err(|e| Fail { sig: "protoc's output".into(), msg: e, artefacts: vec![] })?;
    let g = match canonical(&pool, &got.0, google) {
        Ok(g) => g,
        Err(e) => return fail("undecodable", e).with("program.txt", art),
    };
    if let Some((sig, d)) = text_diff(&text(&w), &text(&g)) {
        return fail(format!("differs in {sig}"), format!("files {files:?} mutation {what}\n{d}")).with("program.txt", art);
    }
    let _ = g.descriptor();
    Ok(())
}

/// is there a file with a public import of a file with a public import?
fn deep(p: &Program) -> bool {
    p.files.iter().any(|f| {
        f.imports.iter().filter(|m| m.1 == 1).any(|m| p.files.iter().any(|g| g.name == m.0 && g.imports.iter().any(|m| m.1 == 1)))
    })
}

/// Shapes of references that the descriptor pool (prost-reflect) resolves differently from protoc;
/// the generator of whole programs avoids them.  Each has a signature of its own.
fn known_case(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let dir = s.fresh();
    let m = *c.t.pick(&["A", "Foo", "Node"]);
    let mut src: Vec<(String, String)> = vec![];
    let (sig, files) = match c.t.below(4) {
        3 => {
            src.push(("root.proto".into(), format!("syntax = \"proto3\"; message {m} {{}} service S {{ rpc {m}({m}) returns ({m}); }}")));
            ("message type hidden by a method of the service", vec!["root.proto"])
        }
        0 => {
            let n = c.t.range(2, 5);
            src.push(("p0.proto".into(), format!("syntax = \"proto3\"; message {m} {{}}")));
            for i in 1..=n {
                src.push((format!("p{i}.proto"), format!("syntax = \"proto3\"; import public \"p{}.proto\";", i - 1)));
            }
            src.push(("root.proto".into(), format!("syntax = \"proto3\"; import \"p{n}.proto\"; message Root {{ {m} f = 1; }}")));
            ("type visible through two public imports", vec!["root.proto"])
        }
        1 => {
            src.push((
                "root.proto".into(),
                format!(
                    "syntax = \"proto2\"; import \"google/protobuf/descriptor.proto\"; message {m} {{ extend google.protobuf.MessageOptions {{ optional int32 o = 50001; }} }} message Root {{ message {m} {{}} option ({m}.o) = 1; }}"
                ),
            ));
            ("option name captured by the message it is on", vec!["root.proto"])
        }
        _ => {
            src.push(("a.proto".into(), format!("syntax = \"proto3\"; package pk; message {m} {{}}")));
            src.push(("b.proto".into(), format!("syntax = \"proto3\"; package other; import \"a.proto\"; message Root {{ pk.{m} f = 1; }}")));
            src.push(("c.proto".into(), "syntax = \"proto3\"; package other.pk;".into()));
            ("name captured by a file that is not imported", vec!["c.proto", "b.proto"])
        }
    };
    for (n, t) in &src {
        std::fs::write(format!("{dir}/{n}"), t).unwrap();
    }
    let files: Vec<String> = files.iter().map(|f| f.to_string()).collect();
    c.label(sig);
    c.key = hash_of(&src);
    let want = protoc(&dir, &files, true, true);
    let got = subject("compile", || library(&dir, &files, true, true))?;
    match (want, got) {
        (Ok(_), Ok(_)) => Ok(()),
        (Ok(_), Err(e)) => fail(sig, format!("{src:?}\nprotox: {e:?}")),
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(_)) => fail(sig, format!("{src:?}\nprotoc: {e}")),
    }
}

/// Breaks (most of the time) one reference or import; the files are rendered anew.
pub fn mutate(c: &mut Case, p: &mut Program) -> Option<&'static str> {
    let i = c.t.below(p.files.len());
    let kind = c.t.weighted(&[25, 20, 20, 20, 10, 20]);
    let invisible: Vec<(String, bool)> = {
        let mut vis = vec![i];
        let mut k = 0;
        while k < vis.len() {
            for m in &p.files[vis[k]].imports {
                if let Some(j) = p.files.iter().position(|f| f.name == m.0) {
                    if !vis.contains(&j) && (k == 0 || m.1 == 1) {
                        vis.push(j);
                    }
                }
            }
            k += 1;
        }
        p.ents.iter().filter(|e| !vis.contains(&e.file)).map(|e| (e.full.clone(), e.msg)).collect()
    };
    let wrong: Vec<(String, bool)> = p.ents.iter().map(|e| (e.full.clone(), e.msg)).collect();
    let f = &mut p.files[i];
    let replace = |f: &mut progen::PFile, a: usize, b: usize, text: &str| {
        let v = crate::world::toks(text);
        f.toks.splice(a..=b, v);
    };
    let what = match kind {
        0 | 1 if !f.sites.is_empty() => {
            let s = c.t.pick(&f.sites).clone();
            if kind == 0 || invisible.is_empty() {
                let mut n = f.toks[s.a..=s.b].iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join(" ");
                match c.t.below(3) {
                    0 => n.push('x'),
                    1 => n = format!(". {n}").replace(". .", ". nothing ."),
                    _ => n = "Undefined".into(),
                }
                replace(f, s.a, s.b, &n);
                "undefined name"
            } else {
                let msg = s.what == "method type" || s.what == "extendee";
                let v: Vec<_> = invisible.iter().filter(|e| e.1 || !msg).collect();
                if v.is_empty() {
                    return None;
                }
                let n = format!(". {}", c.t.pick(&v).0.replace('.', " . "));
                replace(f, s.a, s.b, &n);
                "not imported"
            }
        }
        2 if !f.import_toks.is_empty() => {
            let (a, b) = *c.t.pick(&f.import_toks);
            f.toks.drain(a..=b);
            "import dropped"
        }
        3 => {
            let v: Vec<_> = f.sites.iter().filter(|s| s.what == "method type" || s.what == "extendee").cloned().collect();
            if v.is_empty() {
                return None;
            }
            let s = c.t.pick(&v).clone();
            let n = if c.t.pct(50) {
                let e: Vec<_> = wrong.iter().filter(|e| !e.1).collect();
                if e.is_empty() {
                    return None;
                }
                c.t.pick(&e).0.clone()
            } else if s.what == "extendee" && !wrong.is_empty() {
                // a message without such a number
                c.t.pick(&wrong).0.clone()
            } else if !f.package.is_empty() {
                f.package.clone()
            } else {
                return None;
            };
            replace(f, s.a, s.b, &format!(". {}", n.replace('.', " . ")));
            "wrong kind"
        }
        4 if !f.import_toks.is_empty() => {
            let (a, _) = *c.t.pick(&f.import_toks);
            if f.toks[a + 1].s != "public" {
                return None;
            }
            f.toks.remove(a + 1);
            "import no longer public"
        }
        5 => {
            let v: Vec<usize> = (1..f.toks.len().saturating_sub(1))
                .filter(|k| f.toks[*k].k == TK::Ident && f.toks[k + 1].s == ")" && matches!(f.toks.get(k + 2).map(|t| t.s.as_str()), Some("=" | ".")))
                .collect();
            if v.is_empty() {
                return None;
            }
            let k = *c.t.pick(&v);
            match c.t.below(3) {
                0 => f.toks[k].s.push('x'),
                1 => f.toks[k].s = "Msg".into(),
                _ => f.toks[k + 1].s = ") . nothing".into(),
            }
            "option name"
        }
        _ => return None,
    };
    f.src = render(c.t, &f.toks, Style::Plain).src;
    Some(what)
}

/// Rules about single files which protox checks and protoc 3.21 does not (see C15)
const STRICTER: &[&str] = &["string is not valid utf-8", "invalid identifier", "message numbers must be between"];

/// does protoc report something its parser (as opposed to its descriptor pool) found?
fn syntax_error(e: &str) -> bool {
    e.lines().filter(|l| !l.contains("warning")).any(|l| {
        let m = l.splitn(4, ':').nth(3).unwrap_or("").trim();
        m.starts_with("Expected ") || m.starts_with("Reached end of input") || m.starts_with("Missing ") || m.starts_with("Need space") || m.starts_with("Unmatched")
    })
}

/// Things that are valid for the language specification (and protox) but not for protoc: an empty
/// `extend` block, an empty statement in an `extend` or `oneof` block
fn looser(toks: &[crate::gen::Tok]) -> bool {
    let open = |i: usize| matches!(toks[i].s.as_str(), ";" | "{" | "}");
    (1..toks.len()).any(|i| toks[i].s == ";" && open(i - 1))
        || (1..toks.len()).any(|i| toks[i].s == "}" && toks[i - 1].s == "{" && {
            let mut k = i - 1;
            while k > 0 && (toks[k - 1].k == TK::Ident && toks[k - 1].s != "extend" || toks[k - 1].s == ".") {
                k -= 1;
            }
            k > 0 && toks[k - 1].s == "extend"
        })
}

/// a reserved range of one negative number: protoc gives its end the location of the sign
fn negative_reserved(toks: &[crate::gen::Tok]) -> bool {
    (2..toks.len()).any(|i| toks[i].k == TK::Int && toks[i - 1].s == "-" && matches!(toks[i - 2].s.as_str(), "reserved" | ","))
}

/// Replaces, removes, repeats or moves tokens and statements of one file.
fn scramble(c: &mut Case, p: &mut Program) {
    let idents: Vec<String> = p.files.iter().flat_map(|f| f.toks.iter().filter(|t| t.k == TK::Ident).map(|t| t.s.clone())).collect();
    let i = c.t.below(p.files.len());
    let f = &mut p.files[i];
    let n = 1 + c.t.count(0, 3);
    for _ in 0..n {
        let toks = &mut f.toks;
        if toks.is_empty() {
            break;
        }
        let of = |k: TK, toks: &Vec<crate::gen::Tok>| -> Vec<usize> { (0..toks.len()).filter(|i| toks[*i].k == k).collect() };
        match c.t.below(8) {
            0 | 1 => {
                let v = of(TK::Ident, toks);
                if v.is_empty() { continue; }
                let s = match c.t.below(4) {
                    0 => format!("_{}", c.t.pick(&idents)),
                    _ => c.t.pick(&idents).clone(),
                };
                let k = *c.t.pick(&v);
                toks[k].s = s;
            }
            2 => {
                let v = of(TK::Int, toks);
                if v.is_empty() { continue; }
                let k = *c.t.pick(&v);
                toks[k].s = c.t.pick(&["0", "1", "2", "3", "5", "100", "0x10", "010", "18999", "19000", "19999", "20000", "536870911", "536870912", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615"]).to_string();
            }
            3 => {
                let v: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == TK::Int || toks[*i].k == TK::Float).collect();
                if v.is_empty() { continue; }
                let k = *c.t.pick(&v);
                let s = *c.t.pick(&["-1", "1.5", "-2.5e3", "inf", "-inf", "nan", "-nan", "\"x\"", "true", "{}", "{ a: 1 }", "- 0", "1e400", "0.1"]);
                let v = crate::world::toks(s);
                toks.splice(k..=k, v);
            }
            4 => {
                let v = of(TK::Str, toks);
                if v.is_empty() { continue; }
                let k = *c.t.pick(&v);
                toks[k].s = c.t.pick(&["\"\"", "\"a\"", "\"\\377\"", "'a' \"b\"", "\"foo_bar\"", "\"fooBar\"", "\"google/protobuf/any.proto\""]).to_string();
            }
            5 | 6 => {
                // a statement, repeated elsewhere or removed
                let ends: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i].s.as_str(), ";" | "{" | "}")).collect();
                if ends.len() < 2 { continue; }
                let j = c.t.below(ends.len() - 1);
                let (a, b) = (ends[j] + 1, ends[j + 1]);
                if toks[b].s != ";" { continue; }
                let st: Vec<crate::gen::Tok> = toks[a..=b].to_vec();
                let del = c.t.pct(60);
                let at = *c.t.pick(&ends) + 1;
                if del { toks.drain(a..=b); }
                let at = at.min(toks.len());
                if !del || c.t.pct(50) { toks.splice(at..at, st); }
            }
            _ => {
                let a = c.t.below(toks.len());
                let b = c.t.below(toks.len());
                if c.t.pct(50) { toks.swap(a, b); } else { toks.remove(a); }
            }
        }
    }
    f.src = render(c.t, &f.toks, Style::Plain).src;
}

pub fn run_c21(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C21");
    let spec = Spec {
        prop: "C21",
        rule: "a case is a program of up to four files compiled by protoc and by protox, or one with a broken reference; non-trivial: references between files, custom options in use, or broken",
        cases: ctx.scale(30_000, 1_000_000),
        assumptions: vec!["protoc 3.21.12 defines what a valid program compiles to"],
        f: &|c| protoc_case(&s, c),
        threads: THREADS,
        shrink_budget: 2500,
    };
    go(ctx, spec, replay)
}
