//! C24: decoding descriptor bytes is total and faithful.
use super::outputs::{dynamic, eq_message, extensions, files_of, split, with_google, Sources};
use super::program::show;
use super::*;
use crate::progen;
use bytes::{Buf, Bytes};
use crate::layout::Style;
use prost::encoding::encode_varint;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver};
use protox::prost_reflect::{DescriptorPool, DynamicMessage, Value};
use protox::{Compiler, Error};

fn varint(c: &mut Case, v: u64, odd: bool) -> Vec<u8> {
    let mut b = vec![];
    encode_varint(v, &mut b);
    if odd && c.t.pct(30) {
        // longer than necessary
        let n = c.t.range(b.len() + 1, 11.max(b.len() + 1));
        while b.len() < n {
            let l = b.len();
            b[l - 1] |= 0x80;
            b.push(0);
        }
    }
    b
}

/// an unknown field with the given tag
fn unknown(c: &mut Case, tag: u32, depth: usize) -> Vec<u8> {
    let mut b = vec![];
    let key = |w: u64| (tag as u64) << 3 | w;
    match c.t.below(if depth > 0 { 5 } else { 4 }) {
        0 => {
            encode_varint(key(0), &mut b);
            let v = c.t.u64() >> c.t.below(64);
            b.extend(varint(c, v, true));
        }
        1 => {
            encode_varint(key(1), &mut b);
            b.extend(c.t.u64().to_le_bytes());
        }
        2 => {
            encode_varint(key(5), &mut b);
            b.extend(c.t.u32().to_le_bytes());
        }
        3 => {
            encode_varint(key(2), &mut b);
            let n = c.t.below(200);
            b.extend(varint(c, n as u64, true));
            b.extend((0..n).map(|_| c.t.u32() as u8));
        }
        _ => {
            encode_varint(key(3), &mut b);
            for _ in 0..c.t.below(3) {
                let t = c.t.range(1, 20) as u32;
                b.extend(unknown(c, t, depth - 1));
            }
            encode_varint(key(4), &mut b);
        }
    }
    b
}
fn odd_tag(c: &mut Case) -> u32 {
    match c.t.below(4) {
        0 => c.t.range(2, 15) as u32,
        1 => c.t.range(16, 5000) as u32,
        2 => (1 << 29) - 1,
        _ => c.t.u32() % ((1 << 29) - 2) + 2,
    }
}
fn file_tag(c: &mut Case) -> u32 {
    *c.t.pick(&[15, 16, 99, 999, 1000, 50_000, (1 << 29) - 1])
}

/// positions at which a field of the message starts, and its end
fn fields(b: &[u8]) -> Vec<usize> {
    use prost::encoding::{decode_key, skip_field, DecodeContext};
    let mut rest = b;
    let mut out = vec![0];
    while !rest.is_empty() {
        let Ok((tag, wire)) = decode_key(&mut rest) else { break };
        if skip_field(wire, tag, &mut rest, DecodeContext::default()).is_err() {
            break;
        }
        out.push(b.len() - rest.len());
    }
    out
}

/// A variation of the set's encoding that says the same: the files in `parts` (in this order) and
/// fields to be ignored.
fn reframe(c: &mut Case, parts: &[Vec<u8>], odd: bool) -> Vec<u8> {
    let mut b = vec![];
    let n = if odd { 30 } else { 0 };
    for p in parts {
        if c.t.pct(n) {
            let tag = odd_tag(c);
            b.extend(unknown(c, tag, 3));
        }
        b.extend(if odd { varint(c, 10, c.index % 3 == 0) } else { vec![10] });
        b.extend(varint(c, p.len() as u64, odd));
        b.extend(p);
    }
    if c.t.pct(n) {
        let tag = odd_tag(c);
        b.extend(unknown(c, tag, 3));
    }
    b
}

fn damage(c: &mut Case, mut b: Vec<u8>, parts: &[Vec<u8>]) -> (&'static str, Vec<u8>) {
    let at = |c: &mut Case, b: &[u8]| c.t.below(b.len() + 1);
    match c.t.below(15) {
        0 => {
            let n = at(c, &b);
            b.truncate(n);
            ("truncated", b)
        }
        1 => {
            for _ in 0..c.t.count(1, 6) {
                if !b.is_empty() {
                    let i = c.t.below(b.len());
                    b[i] ^= 1 << c.t.below(8);
                }
            }
            ("bits flipped", b)
        }
        2 => {
            let i = at(c, &b);
            let v: Vec<u8> = (0..c.t.count(1, 8)).map(|_| c.t.u32() as u8).collect();
            b.splice(i..i, v);
            ("bytes inserted", b)
        }
        3 => {
            let i = at(c, &b);
            let j = (i + c.t.count(1, 8)).min(b.len());
            b.drain(i..j);
            ("bytes removed", b)
        }
        4 => {
            // the file field with another wire type
            let mut v = vec![];
            encode_varint(8 | *c.t.pick(&[0u64, 1, 5, 3, 4, 6, 7]), &mut v);
            v.extend((0..c.t.below(12)).map(|_| c.t.u32() as u8 & 0x7f));
            if v[0] == 11 {
                v.push(12);
            }
            let i = *c.t.pick(&fields(&b));
            b.splice(i..i, v);
            ("wrong wire type", b)
        }
        5 => {
            let n = *c.t.pick(&[0, 1, 2, 100, 1 << 20, 1 << 31, 1 << 32, 1 << 40, u64::MAX >> 1, u64::MAX]);
            b.push(10);
            let rest = c.t.below(4) as u64;
            encode_varint(n, &mut b);
            b.extend(vec![0x0a; rest as usize]);
            ("length too large", b)
        }
        6 => {
            let i = *c.t.pick(&fields(&b));
            let v: &[u8] = *c.t.pick(&[&[0][..], &[0x0c], &[0x14], &[0x07], &[0x16, 0], &[0x80], &[0xff; 11], &[0xfa, 0xff, 0xff, 0xff, 0x1f, 0], &[2, 0], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02]]);
            b.splice(i..i, v.iter().copied());
            ("bad key", b)
        }
        7 => {
            // a group that is not closed, or closed with another tag, or deep
            let mut v = vec![];
            let n = *c.t.pick(&[1, 2, 90, 98, 99, 100, 101, 102, 500]);
            for _ in 0..n {
                v.push(0x13);
            }
            let close = *c.t.pick(&[0, 1, 1, 2]);
            for k in 0..n {
                if close != 0 {
                    v.push(if close == 2 && k == 0 { 0x1c } else { 0x14 });
                }
            }
            let i = *c.t.pick(&fields(&b));
            b.splice(i..i, v);
            ("groups", b)
        }
        8 => {
            // a string that is not UTF-8
            let mut parts = parts.to_vec();
            let i = c.t.below(parts.len());
            let bad: &[u8] = *c.t.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe4, 0xb8]]);
            let mut v = vec![*c.t.pick(&[0x0a, 0x12, 0x1a, 0x62])];
            encode_varint(bad.len() as u64, &mut v);
            v.extend(bad);
            let p = &mut parts[i];
            let at = *c.t.pick(&fields(p));
            p.splice(at..at, v);
            ("string not UTF-8", reframe(c, &parts, false))
        }
        9 => {
            // a file that ends inside a field, with more behind it
            let mut parts = parts.to_vec();
            let i = c.t.below(parts.len());
            let n = at(c, &parts[i]);
            parts[i].truncate(n);
            ("file cut off", reframe(c, &parts, false))
        }
        10 => {
            let mut parts = parts.to_vec();
            let i = c.t.below(parts.len());
            let p = &mut parts[i];
            for _ in 0..c.t.count(1, 3) {
                if !p.is_empty() {
                    let k = c.t.below(p.len());
                    p[k] = *c.t.pick(&[0, 1, 2, 7, 8, 10, 18, 0x7f, 0x80, 0xff]);
                }
            }
            ("bytes changed in a file", reframe(c, &parts, false))
        }
        11 => {
            // moderately deep nesting inside a file
            let mut parts = parts.to_vec();
            let i = c.t.below(parts.len());
            let n = c.t.range(1, 40);
            let mut v: Vec<u8> = vec![];
            for _ in 0..n {
                let mut w = vec![*c.t.pick(&[0x1a, 0x1a, 0x22])];
                encode_varint(v.len() as u64, &mut w);
                w.extend(v);
                v = w;
            }
            let mut w = vec![0x22];
            encode_varint(v.len() as u64, &mut w);
            w.extend(v);
            parts[i].extend(w);
            ("nested", reframe(c, &parts, false))
        }
        12 => {
            let n = c.t.below(60);
            ("random bytes", (0..n).map(|_| c.t.u32() as u8).collect())
        }
        13 => {
            let n = c.t.below(40);
            ("random small bytes", (0..n).map(|_| *c.t.pick(&[0, 1, 2, 3, 5, 8, 10, 10, 10, 18, 26, 34])).collect())
        }
        _ => {
            let tag = odd_tag(c);
            let mut u = unknown(c, tag, 3);
            let n = c.t.below(u.len() + 1);
            u.truncate(n);
            b.extend(u);
            ("unknown field cut off", b)
        }
    }
}

/// decodes through one of several kinds of buffers
fn decode_set(c: &mut Case, b: &[u8]) -> Result<Result<DescriptorSetFileResolver, prost::DecodeError>, Fail> {
    let k = c.t.below(6);
    let i = c.t.below(b.len() + 1);
    let j = i + c.t.below(b.len() - i + 1);
    c.evals += 1;
    subject("DescriptorSetFileResolver::decode", || match k {
        0 => DescriptorSetFileResolver::decode(b),
        1 => DescriptorSetFileResolver::decode(Bytes::copy_from_slice(b)),
        2 => DescriptorSetFileResolver::decode(b[..i].chain(&b[i..])),
        3 => DescriptorSetFileResolver::decode(Bytes::copy_from_slice(&b[..i]).chain(&b[i..j]).chain(&b[j..])),
        4 => {
            let mut q: std::collections::VecDeque<u8> = b[j..].iter().copied().collect();
            for x in b[..j].iter().rev() {
                q.push_front(*x);
            }
            DescriptorSetFileResolver::decode(q)
        }
        _ => {
            let mut v = vec![0xff; i];
            v.extend(b);
            v.extend([10, 3]);
            let mut s = &v[..];
            s.advance(i);
            DescriptorSetFileResolver::decode(s.take(b.len()))
        }
    })
}
/// the same of bytes known to be well-formed
fn decode_good(c: &mut Case, b: &[u8]) -> Result<DescriptorSetFileResolver, Fail> {
    match decode_set(c, b)? {
        Ok(r) => Ok(r),
        Err(e) => fail("rejected through another buffer", format!("{e:?}")).map_err(|f: Fail| f.with("set.bin", b)),
    }
}
fn decode_file(c: &mut Case, b: &[u8]) -> Result<Result<File, prost::DecodeError>, Fail> {
    let k = c.t.below(4);
    let i = c.t.below(b.len() + 1);
    c.evals += 1;
    subject("File::decode_file_descriptor_proto", || match k {
        0 => File::decode_file_descriptor_proto(b),
        1 => File::decode_file_descriptor_proto(Bytes::copy_from_slice(b)),
        2 => File::decode_file_descriptor_proto(b[..i].chain(&b[i..])),
        _ => {
            let mut v = b.to_vec();
            v.extend([10, 3]);
            File::decode_file_descriptor_proto(v.take(b.len()))
        }
    })
}
trait TakeVec {
    fn take(self, n: usize) -> bytes::buf::Take<bytes::buf::Chain<Bytes, Bytes>>;
}
impl TakeVec for Vec<u8> {
    fn take(self, n: usize) -> bytes::buf::Take<bytes::buf::Chain<Bytes, Bytes>> {
        let b = Bytes::from(self);
        let m = b.len() / 2;
        Buf::take(b.slice(..m).chain(b.slice(m..)), n)
    }
}

fn plain_file(f: &File, want: &FileDescriptorProto, what: &str) -> Result<(), Fail> {
    if f.file_descriptor_proto() != want || f.name() != want.name() {
        return fail(format!("{what}: content"), crate::cmp::diff(want, f.file_descriptor_proto()));
    }
    if f.path().is_some() || f.source().is_some() {
        return fail(format!("{what}: path or source"), format!("{:?} {:?}", f.path(), f.source()));
    }
    Ok(())
}

/// what a plain decode gives, against the resolver
fn compare(c: &mut Case, what: &str, b: &[u8]) -> Result<Option<FileDescriptorSet>, Fail> {
    let want = FileDescriptorSet::decode(b);
    let got = decode_set(c, b)?;
    let (want, got) = match (want, got) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(_), Err(_)) => return Ok(None),
        (Ok(_), Err(e)) => return fail(format!("rejected, {what}"), format!("{e:?}")),
        (Err(e), Ok(_)) => return fail(format!("accepted, {what}"), format!("{e:?}")),
    };
    let mut absent = vec!["".to_string(), "nothing.proto".into(), "google/protobuf/descriptor.proto".into(), "./a.proto".into()];
    for f in &want.file {
        let n = f.name();
        absent.extend([format!("{n}x"), format!("./{n}"), format!("/{n}"), n.to_uppercase(), n.trim_end_matches(".proto").into(), n.rsplit('/').next().unwrap().into()]);
        if n.len() > 1 && n.is_ascii() {
            absent.push(n[1..].into());
            absent.push(n[..n.len() - 1].into());
        }
        let first = want.file.iter().find(|g| g.name() == n).unwrap();
        match subject("open_file", || got.open_file(n))? {
            Ok(g) => plain_file(&g, first, "file of the set")?,
            Err(e) => return fail("file of the set not found", format!("{n:?}: {e:?}")),
        }
    }
    for n in absent {
        if want.file.iter().any(|f| f.name() == n) {
            continue;
        }
        match subject("open_file", || got.open_file(&n))? {
            Ok(_) => return fail("found a file that is not in the set", n),
            Err(e) if e.is_file_not_found() && e.to_string().contains(&*n) => (),
            Err(e) => return fail("absent file", format!("{n:?}: {e:?}")),
        }
    }
    Ok(Some(want))
}

fn strip_unknown(m: &mut DynamicMessage) {
    fn value(v: &mut Value) {
        match v {
            Value::Message(m) => strip_unknown(m),
            Value::List(l) => l.iter_mut().for_each(value),
            Value::Map(m) => m.values_mut().for_each(value),
            _ => (),
        }
    }
    let _ = m.take_unknown_fields().count();
    m.fields_mut().for_each(|(_, v)| value(v));
    m.extensions_mut().for_each(|(_, v)| value(v));
}

fn case(c: &mut Case) -> Result<(), Fail> {
    let cfg = progen::Cfg {
        files: 3,
        opt: *c.t.pick(&[12, 30]),
        custom: *c.t.pick(&[40, 90]),
        google: 2,
        styles: &[Style::Plain],
        deep_public: 0,
        captured: 0,
        stray: 0,
    };
    let p = progen::generate(c.t, cfg);
    let mut comp = Compiler::with_file_resolver(with_google(Sources::of(&p)));
    comp.include_imports(true).include_source_info(c.t.pct(50));
    let names: Vec<&String> = p.files.iter().map(|f| &f.name).collect();
    if let Err(e) = subject("compile", || comp.open_files(&names).map(|_| ()))? {
        return fail("rejected", format!("{e:?}")).with("program.txt", show(&p));
    }
    let out = comp.encode_file_descriptor_set();
    let pool = comp.descriptor_pool();
    c.key = hash_of(&out);
    c.sample = Some(show(&p));
    for f in &p.feats {
        c.label(f);
    }
    check(c, &names, &out, pool).map_err(|f| f.with("program.txt", show(&p)))
}

fn recompile(what: &str, r: impl FileResolver + 'static, names: &[&String]) -> Result<Result<Vec<u8>, Error>, Fail> {
    let mut d = Compiler::with_file_resolver(r);
    subject(what, || {
        d.include_imports(true).include_source_info(true);
        d.open_files(names).map(|_| ())?;
        Ok(d.encode_file_descriptor_set())
    })
}

fn check(c: &mut Case, names: &[&String], out: &[u8], pool: DescriptorPool) -> Result<(), Fail> {
    let pool = if pool.get_message_by_name("google.protobuf.FileDescriptorSet").is_some() { pool } else { DescriptorPool::global() };
    let parts: Vec<Vec<u8>> = files_of(out)?.into_iter().map(|p| p.to_vec()).collect();
    let with = |f: Fail, b: &[u8]| f.with("set.bin", b);

    // encodings that say the same (or more)
    for _ in 0..3 {
        let mut ps = parts.clone();
        let mut same = true;
        if c.t.pct(40) {
            for i in (1..ps.len()).rev() {
                ps.swap(i, c.t.below(i + 1));
            }
        }
        for p in ps.iter_mut() {
            if c.t.pct(25) {
                // unknown fields inside the file
                let f = fields(p);
                let at = *c.t.pick(&f);
                let tag = file_tag(c);
                let u = unknown(c, tag, 3);
                p.splice(at..at, u);
                same = false;
            }
        }
        let mut copies = false;
        if c.t.pct(30) {
            // another file of the same name, behind
            let k = c.t.below(ps.len());
            let mut d = ps[k].clone();
            d.extend([0x12, 1, b'z']);
            let at = c.t.range(k + 1, ps.len());
            ps.insert(at, d);
            copies = true;
        }
        let b = reframe(c, &ps, true);
        let set = compare(c, "equivalent encoding", &b).map_err(|f| with(f, &b))?;
        let Some(set) = set else {
            // a length of more than ten bytes
            c.label("equivalent encoding with an overlong varint");
            continue;
        };
        c.label_if(copies, "several files of one name");
        if set.file.len() != ps.len() {
            return fail("harness: number of files", format!("{} {}", set.file.len(), ps.len()));
        }
        let r = decode_good(c, &b)?;
        let got = match recompile("compiling a decoded set", r, names)? {
            Ok(g) => g,
            Err(e) => return fail("decoded set does not compile", format!("{e:?}")).map_err(|f| with(f, &b)),
        };
        if same && got == out {
            c.label("recompiled to the same bytes");
            continue;
        }
        // the order of files is that of the compilation, so the same
        let (mut g, mut w) = (dynamic(&pool, &got)?, dynamic(&pool, out)?);
        strip_unknown(&mut g);
        strip_unknown(&mut w);
        if !eq_message(&g, &w) {
            let d = super::program::text_diff(&super::program::text(&w), &super::program::text(&g));
            let (sig, d) = d.unwrap_or(("unprinted content".into(), String::new()));
            return fail(format!("recompiled: {sig}"), d).map_err(|f| with(f, &b));
        }
        c.nontrivial |= extensions(&w) > 0;
    }

    // the same files under other names, found under exactly these
    if c.t.pct(40) {
        let mut ps = parts.clone();
        for k in 0..ps.len() {
            if c.t.pct(70) {
                let of = c.t.pick(names).to_string();
                let n = match c.t.below(12) {
                    0 => format!("./{of}"),
                    1 => format!("/{of}"),
                    2 => format!("{of}/"),
                    3 => format!(" {of}"),
                    4 => format!("{of} "),
                    5 => format!("{of}\0"),
                    6 => of.to_uppercase(),
                    7 => of.replace('/', "\\"),
                    8 => of.replace('/', "//"),
                    9 => format!("x/../{of}"),
                    10 => String::new(),
                    _ => of.trim_end_matches(".proto").to_string(),
                };
                ps[k].extend([10, n.len() as u8]);
                ps[k].extend(n.as_bytes());
            }
        }
        let b = reframe(c, &ps, true);
        compare(c, "renamed files", &b).map_err(|f| with(f, &b))?;
        c.label("renamed files");
    }

    // single files
    for p in &parts {
        if c.t.pct(50) {
            let want = FileDescriptorProto::decode(&**p).unwrap();
            match decode_file(c, p)? {
                Ok(f) => plain_file(&f, &want, "decoded file")?,
                Err(e) => return fail("file rejected", format!("{e:?}")),
            }
            plain_file(&File::from_file_descriptor_proto(want.clone()), &want, "File::from_file_descriptor_proto")?;
            plain_file(&want.clone().into(), &want, "File::from")?;
        }
    }
    let plain = DescriptorSetFileResolver::new(FileDescriptorSet::decode(out).unwrap());
    for f in FileDescriptorSet::decode(out).unwrap().file {
        match plain.open_file(f.name()) {
            Ok(g) => plain_file(&g, &f, "DescriptorSetFileResolver::new")?,
            Err(e) => return fail("file of the decoded set not found", format!("{e:?}")),
        }
    }

    // damaged ones
    let mut accepted = 0;
    for _ in 0..24 {
        let odd = c.t.pct(20);
        let b = reframe(c, &parts, odd);
        let (what, b) = damage(c, b, &parts);
        let set = compare(c, what, &b).map_err(|f| with(f, &b))?;
        c.label(&format!("{what}: {}", if set.is_some() { "still well-formed" } else { "malformed" }));
        if let Some(set) = &set {
            accepted += 1;
            if c.t.pct(30) {
                // whatever it is now, compiling it ends in a result
                let names: Vec<String> = set.file.iter().map(|f| f.name().to_string()).collect();
                let names: Vec<&String> = names.iter().collect();
                let mut r = ChainFileResolver::new();
                r.add(decode_good(c, &b)?);
                let odd = set.file.iter().any(|f| !matches!(f.syntax.as_deref(), None | Some("proto2" | "proto3")));
                let r = recompile("compiling a damaged set", r, &names).map_err(|mut f| {
                    if odd && f.msg.contains("/prost-reflect-") && f.msg.contains("/descriptor/error.rs") {
                        f.sig = "compiling a file with an unknown syntax panics in prost-reflect".into();
                    }
                    with(f, &b)
                })?;
                c.label(if r.is_ok() { "damaged set compiles" } else { "damaged set does not compile" });
            }
        }
        // as a single file
        let one = match subject("split", || split(&b).into_iter().next().map(|p| p.to_vec())) {
            Ok(Some(p)) if c.t.pct(70) => p,
            _ => b.clone(),
        };
        let want = FileDescriptorProto::decode(&*one);
        match (want, decode_file(c, &one)?) {
            (Ok(w), Ok(g)) => plain_file(&g, &w, "decoded file").map_err(|f| f.with("file.bin", &one))?,
            (Err(_), Err(_)) => (),
            (Ok(_), Err(e)) => return fail("file rejected", format!("{e:?}")).map_err(|f: Fail| f.with("file.bin", &one)),
            (Err(e), Ok(_)) => return fail("file accepted", format!("{e:?}")).map_err(|f: Fail| f.with("file.bin", &one)),
        }
    }
    c.nontrivial |= accepted > 0;
    Ok(())
}

pub fn run_prop(ctx: &Ctx, replay: Option<&str>) -> i32 {
    let spec = Spec {
        prop: "C24",
        rule: "a case is the encoding of a generated program, three equivalent encodings and 24 damaged ones (evaluations counts the decoded byte strings); non-trivial: extension options present, or a damaged encoding that is still well-formed",
        cases: ctx.scale(11_000, 600_000),
        assumptions: vec!["prost's decoding of FileDescriptorSet defines which bytes are well-formed"],
        f: &case,
        threads: THREADS,
        shrink_budget: 1500,
    };
    go(ctx, spec, replay)
}
