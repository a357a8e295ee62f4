//! C20: the outputs of one compiler agree with each other and survive a round trip.
use super::program::{show, write_files, STYLES};
use super::*;
use crate::progen::{self, Program};
use crate::scratch::Scratch;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage, Value};
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};

pub struct Sources(pub BTreeMap<String, String>);
impl Sources {
    pub fn of(p: &Program) -> Sources {
        Sources(p.files.iter().map(|f| (f.name.clone(), f.src.clone())).collect())
    }
}
impl FileResolver for Sources {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) {
            Some(s) => File::from_source(name, s),
            None => Err(Error::file_not_found(name)),
        }
    }
}
/// Hands out the files of a set one by one, in encoded or in decoded form.
struct Files {
    encoded: BTreeMap<String, Vec<u8>>,
    decoded: bool,
}
impl FileResolver for Files {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.encoded.get(name) {
            Some(b) if self.decoded => Ok(FileDescriptorProto::decode(&**b).unwrap().into()),
            Some(b) => Ok(File::decode_file_descriptor_proto(&**b).unwrap()),
            None => Err(Error::file_not_found(name)),
        }
    }
}

pub fn with_google<R: FileResolver + 'static>(r: R) -> ChainFileResolver {
    let mut chain = ChainFileResolver::new();
    chain.add(r);
    chain.add(GoogleFileResolver::new());
    chain
}

/// the encoded files of an encoded set
pub fn files_of(b: &[u8]) -> Result<Vec<&[u8]>, Fail> {
    if FileDescriptorSet::decode(b).is_err() {
        return fail("encoded set does not decode", "");
    }
    subject("splitting the encoded set", || split(b))
}
pub fn split(mut b: &[u8]) -> Vec<&[u8]> {
    fn varint(b: &mut &[u8]) -> usize {
        let (mut v, mut s) = (0usize, 0);
        loop {
            let x = b[0];
            *b = &b[1..];
            v |= ((x & 127) as usize) << s;
            s += 7;
            if x < 128 {
                return v;
            }
        }
    }
    let mut out = vec![];
    while !b.is_empty() {
        assert_eq!(varint(&mut b), 10);
        let n = varint(&mut b);
        out.push(&b[..n]);
        b = &b[n..];
    }
    out
}

/// an encoded file without its source_code_info (field 9)
fn without_source_info(b: &[u8]) -> Vec<u8> {
    use prost::encoding::{decode_key, skip_field, DecodeContext};
    let (mut out, mut rest) = (vec![], b);
    while !rest.is_empty() {
        let start = rest;
        let (tag, wire) = decode_key(&mut rest).unwrap();
        skip_field(wire, tag, &mut rest, DecodeContext::default()).unwrap();
        if tag != 9 {
            out.extend(&start[..start.len() - rest.len()]);
        }
    }
    out
}

pub fn dynamic(pool: &DescriptorPool, bytes: &[u8]) -> Result<DynamicMessage, Fail> {
    let d = pool.get_message_by_name("google.protobuf.FileDescriptorSet").unwrap();
    DynamicMessage::decode(d, bytes).map_err(|e| Fail { sig: "encoded set does not decode".into(), msg: e.to_string(), artefacts: vec![] })
}

/// does any message below have an extension field set?
pub fn extensions(m: &DynamicMessage) -> usize {
    fn value(v: &Value) -> usize {
        match v {
            Value::Message(m) => extensions(m),
            Value::List(l) => l.iter().map(value).sum(),
            Value::Map(m) => m.values().map(value).sum(),
            _ => 0,
        }
    }
    m.extensions().count() + m.fields().map(|(_, v)| value(v)).sum::<usize>()
}

/// equality, but NaN equals itself
fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::F64(x), Value::F64(y)) => x == y || x.is_nan() && y.is_nan(),
        (Value::F32(x), Value::F32(y)) => x == y || x.is_nan() && y.is_nan(),
        (Value::List(x), Value::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| eq(x, y)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| eq(v, w))),
        (Value::Message(x), Value::Message(y)) => eq_message(x, y),
        _ => a == b,
    }
}
pub fn eq_message(a: &DynamicMessage, b: &DynamicMessage) -> bool {
    a == b
        || a.descriptor() == b.descriptor()
            && a.fields().count() == b.fields().count()
            && a.fields().zip(b.fields()).all(|((d, v), (e, w))| d == e && eq(v, w))
            && a.extensions().count() == b.extensions().count()
            && a.extensions().zip(b.extensions()).all(|((d, v), (e, w))| d == e && eq(v, w))
            && a.unknown_fields().eq(b.unknown_fields())
}

const FLAGS: [(bool, bool); 4] = [(false, false), (false, true), (true, false), (true, true)];

/// flag combination -> encoded set
type Outputs = Vec<Vec<u8>>;

/// those of the combinations in `which`
fn outputs(c: &mut Compiler, which: &[usize]) -> BTreeMap<usize, Vec<u8>> {
    let mut out = BTreeMap::new();
    for k in which {
        c.include_imports(FLAGS[*k].0).include_source_info(FLAGS[*k].1);
        out.insert(*k, c.encode_file_descriptor_set());
    }
    out
}

/// `packed`: there may be an extension declared packed and used in one file.  Its own options are not
/// known yet when that use is encoded (by protoc as well), so it is packed only the next time.
fn same(what: &str, pool: &DescriptorPool, packed: bool, a: &Outputs, b: &BTreeMap<usize, Vec<u8>>) -> Result<(), Fail> {
    for (k, b) in b {
        let (i, s) = FLAGS[*k];
        let a = &a[*k];
        if a != b {
            if packed && eq_message(&dynamic(pool, a)?, &dynamic(pool, b)?) {
                continue;
            }
            return fail(
                format!("{what} differs"),
                format!(
                    "include_imports={i} include_source_info={s}\nas decoded: {}",
                    crate::cmp::diff(&FileDescriptorSet::decode(&**a).ok(), &FileDescriptorSet::decode(&**b).ok())
                ),
            );
        }
    }
    Ok(())
}

fn case(s: &Scratch, c: &mut Case) -> Result<(), Fail> {
    let cfg = progen::Cfg {
        files: 4,
        opt: *c.t.pick(&[12, 5, 40]),
        custom: *c.t.pick(&[40, 90, 0]),
        google: 3,
        styles: STYLES,
        deep_public: 0,
        captured: 0,
        stray: 0,
    };
    let p = progen::generate(c.t, cfg);
    let mut names: Vec<String> = vec![];
    for f in &p.files {
        if c.t.pct(40) {
            names.insert(c.t.below(names.len() + 1), f.name.clone());
        }
    }
    let last = p.files.last().unwrap().name.clone();
    if !names.contains(&last) {
        names.push(last);
    }
    if c.t.pct(5) {
        names.push("google/protobuf/descriptor.proto".into());
    }
    for f in &p.feats {
        c.label(f);
    }
    c.key = hash_of(&(show(&p), &names));
    c.sample = Some(show(&p));
    let disk = c.t.pct(25);
    check(s, c, &p, &names, disk).map_err(|f| f.with("program.txt", format!("// open {names:?}\n{}", show(&p))))
}

fn check(s: &Scratch, c: &mut Case, p: &Program, names: &[String], disk: bool) -> Result<(), Fail> {
    let mut comp = Compiler::with_file_resolver(with_google(Sources::of(p)));
    let open = |c: &mut Compiler| c.open_files(names).map(|_| ());
    if let Err(e) = subject("compile", || open(&mut comp))? {
        return fail("rejected", format!("{e:?}"));
    }
    let list: Vec<String> = comp.files().map(|f| f.name().to_string()).collect();
    let pool = comp.descriptor_pool();
    let pooled: Vec<String> = pool.files().map(|f| f.name().to_string()).collect();
    if list != pooled || list.iter().collect::<BTreeSet<_>>().len() != list.len() {
        return fail("files() and descriptor_pool()", format!("files() lists {list:?}, descriptor_pool() {pooled:?}"));
    }
    let explicit: Vec<bool> = comp.files().map(|f| !f.is_import()).collect();
    for (n, x) in list.iter().zip(&explicit) {
        if *x != names.contains(n) {
            return fail("is_import()", format!("{n}: opened {names:?}, is_import() {}", !x));
        }
    }
    // every combination of the flags against the fullest one
    let mut out: Outputs = vec![vec![]; 4];
    let mut order: Vec<usize> = (0..4).collect();
    for i in (1..4).rev() {
        order.swap(i, c.t.below(i + 1));
    }
    let mut sets = vec![FileDescriptorSet::default(); 4];
    for k in order {
        comp.include_imports(FLAGS[k].0).include_source_info(FLAGS[k].1);
        (out[k], sets[k]) = subject("encode", || (comp.encode_file_descriptor_set(), comp.file_descriptor_set()))?;
    }
    let own = if pool.get_message_by_name("google.protobuf.FileDescriptorSet").is_some() { pool.clone() } else { DescriptorPool::global() };
    let packed = p.files.iter().any(|f| f.toks.iter().any(|t| t.s == "packed"));
    let parts = files_of(&out[3])?;
    if parts.len() != list.len() {
        return fail("number of files", format!("{} files in the set with imports, {} in files()", parts.len(), list.len()));
    }
    let bare: Vec<Vec<u8>> = parts.iter().map(|p| without_source_info(p)).collect();
    let file = |b: &[u8]| {
        let mut v = vec![10];
        prost::encoding::encode_varint(b.len() as u64, &mut v);
        v.extend(b);
        v
    };
    for (k, (imports, info)) in FLAGS.iter().enumerate() {
        let what = format!("include_imports={imports} include_source_info={info}");
        let mut want = vec![];
        for (i, x) in explicit.iter().enumerate() {
            if *imports || *x {
                want.extend(file(if *info { parts[i] } else { &bare[i] }));
            }
        }
        if out[k] != want {
            // not byte for byte: compare the content
            let (got, want) = (dynamic(&own, &out[k])?, dynamic(&own, &want)?);
            if !eq_message(&got, &want) {
                let d = super::program::text_diff(&super::program::text(&want), &super::program::text(&got));
                let (sig, d) = d.unwrap_or(("unprinted content".into(), String::new()));
                return fail(format!("encoded set: {sig}"), format!("{what}, compared with the set with imports and source info\n{d}"));
            }
        }
        match FileDescriptorSet::decode(&*out[k]) {
            Ok(d) if d == sets[k] => (),
            Ok(d) => return fail("in-memory set differs", format!("{what}\n{}", crate::cmp::diff(&d, &sets[k]))),
            Err(e) => return fail("encoded set does not decode", e.to_string()),
        }
        let have: Vec<&str> = sets[k].file.iter().map(|f| f.name()).collect();
        let expect: Vec<&String> = list.iter().zip(&explicit).filter(|(_, x)| *imports || **x).map(|(n, _)| n).collect();
        if have != expect {
            return fail("order", format!("{what}: {have:?}, files() {expect:?}"));
        }
    }
    // the pool's own files carry the same content
    for (f, v) in pool.files().zip(&parts).filter(|(f, _)| !f.name().starts_with("google/")) {
        let d = f.encode_to_vec();
        if d != *v && !eq_message(&dynamic(&own, &file(&d))?, &dynamic(&own, &file(v))?) {
            return fail("descriptor pool's file differs", f.name());
        }
    }
    let custom = p.feats.contains("custom option use");
    let ext = if custom { extensions(&dynamic(&own, &out[2])?) } else { 0 };
    if custom && p.files.iter().all(|f| list.contains(&f.name)) && ext == 0 {
        return fail("extension options lost", "a program with custom options has none in the encoded set with imports");
    }
    c.label_if(ext > 0, "extension options");
    c.label_if(explicit.contains(&false), "imports not opened");
    c.nontrivial = list.len() > 1 || ext > 0;

    // compiling again from the outputs
    let mut which = vec![3, c.t.below(4)];
    which.dedup();
    let again = |what: &str, r: ChainFileResolver| -> Result<BTreeMap<usize, Vec<u8>>, Fail> {
        let mut d = Compiler::with_file_resolver(r);
        match subject("recompile", || open(&mut d))? {
            Ok(()) => subject("encode", || outputs(&mut d, &which)),
            Err(e) => fail(format!("{what} rejected"), format!("{e:?}")),
        }
    };
    let chain = |r: DescriptorSetFileResolver| {
        let mut c = ChainFileResolver::new();
        c.add(r);
        c
    };
    let decode = |b: &[u8]| DescriptorSetFileResolver::decode(b).map_err(|e| Fail { sig: "decode".into(), msg: e.to_string(), artefacts: vec![] });
    same("recompiled from the decoded set", &own, packed, &out, &again("recompiling from the decoded set", chain(decode(&out[3])?))?)?;
    match c.t.below(6) {
        0 => {
            // without source info there is none to reproduce
            let got = again("recompiling from the decoded set without source info", chain(decode(&out[2])?))?;
            let want = [0, 0, 2, 2].map(|k: usize| out[k].clone()).to_vec();
            same("recompiled from the decoded set without source info", &own, packed, &want, &got)?;
        }
        1 => {
            let mut r = chain(decode(&out[1])?);
            r.add(Sources::of(p));
            r.add(GoogleFileResolver::new());
            same("recompiled from the opened files and sources", &own, packed, &out, &again("recompiling from the opened files and sources", r)?)?;
        }
        2 => {
            let got = again("recompiling from the in-memory set", chain(DescriptorSetFileResolver::new(sets[3].clone())))?;
            if ext == 0 {
                same("recompiled from the in-memory set", &own, packed, &out, &got)?;
            } else {
                for (k, got) in got {
                    if FileDescriptorSet::decode(&*got).ok().as_ref() != Some(&sets[k]) {
                        return fail("recompiled from the in-memory set differs", format!("{:?}", FLAGS[k]));
                    }
                }
            }
        }
        k @ 3..=4 => {
            let encoded = split(&out[3]).into_iter().map(|b| (FileDescriptorProto::decode(b).unwrap().name().to_string(), b.to_vec())).collect();
            let mut r = ChainFileResolver::new();
            r.add(Files { encoded, decoded: k == 4 });
            let got = again("recompiling from single files", r)?;
            if k == 3 || ext == 0 {
                same("recompiled from single files", &own, packed, &out, &got)?;
            }
        }
        _ => {
            // flags set before opening; files opened one by one, some of them twice
            let (i, s) = *c.t.pick(&FLAGS);
            let mut d = Compiler::with_file_resolver(with_google(Sources::of(p)));
            d.include_imports(i).include_source_info(s);
            for n in names {
                let r = subject("compile", || d.open_file(n).map(|_| ()))?;
                if let Err(e) = r {
                    return fail("rejected", format!("{e:?}"));
                }
                let _ = subject("encode", || d.encode_file_descriptor_set())?;
                if c.t.pct(30) && d.open_file(n).is_err() {
                    return fail("second open rejected", n);
                }
            }
            let k = FLAGS.iter().position(|f| *f == (i, s)).unwrap();
            if d.encode_file_descriptor_set() != out[k] {
                return fail("flags set before opening", format!("include_imports={i} include_source_info={s}"));
            }
        }
    }
    if disk {
        c.label("on disk");
        let dir = s.fresh();
        write_files(&dir, p);
        let r = subject("compile", || protox::compile(names, [&dir]))?;
        match r {
            Ok(r) if r == sets[3] => (),
            Ok(r) => return fail("protox::compile differs", crate::cmp::diff(&sets[3], &r)),
            Err(e) => return fail("protox::compile fails", format!("{e:?}")),
        }
    }
    Ok(())
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let s = Scratch::enter("C20");
    let spec = Spec {
        prop: "C20",
        rule: "a case is a program of up to four files, all flag combinations and two or three recompilations; non-trivial: more than one file or extension options",
        cases: ctx.scale(9_000, 400_000),
        assumptions: vec!["prost-reflect's DynamicMessage decodes extension options"],
        f: &|c| case(&s, c),
        threads: THREADS,
        shrink_budget: 2500,
    };
    go(ctx, spec, replay)
}
