//! Comparison of descriptors.
use prost_types::field_descriptor_proto::Type;
use prost_types::{DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto, UninterpretedOption};

/// Brings the values the library may spell in several ways into a canonical form:
/// aggregate text, float defaults, bytes defaults.
pub fn normalise(f: &mut FileDescriptorProto) {
    fn opts(v: &mut [UninterpretedOption]) {
        for o in v {
            if let Some(a) = &o.aggregate_value {
                o.aggregate_value = Some(crate::textfmt::canon(a));
            }
        }
    }
    fn field(f: &mut FieldDescriptorProto) {
        if let Some(o) = &mut f.options {
            opts(&mut o.uninterpreted_option);
        }
        if let (Some(d), Some(t)) = (&f.default_value, f.r#type) {
            if t == Type::Double as i32 || t == Type::Float as i32 {
                f.default_value = Some(match d.parse::<f64>() {
                    Ok(v) => crate::gen::canon_f64(v),
                    Err(e) => format!("unparsable float {d:?}: {e}"),
                });
            } else if t == Type::Bytes as i32 {
                f.default_value = Some(match crate::textfmt::unescape(d.as_bytes()) {
                    Ok(v) => crate::gen::canon_bytes(&v),
                    Err(e) => format!("unparsable bytes {d:?}: {e}"),
                });
            }
        }
    }
    fn enm(e: &mut EnumDescriptorProto) {
        if let Some(o) = &mut e.options {
            opts(&mut o.uninterpreted_option);
        }
        for v in &mut e.value {
            if let Some(o) = &mut v.options {
                opts(&mut o.uninterpreted_option);
            }
        }
    }
    fn msg(m: &mut DescriptorProto) {
        m.field.iter_mut().for_each(field);
        m.extension.iter_mut().for_each(field);
        m.nested_type.iter_mut().for_each(msg);
        m.enum_type.iter_mut().for_each(enm);
        for r in &mut m.extension_range {
            if let Some(o) = &mut r.options {
                opts(&mut o.uninterpreted_option);
            }
        }
        for o in &mut m.oneof_decl {
            if let Some(o) = &mut o.options {
                opts(&mut o.uninterpreted_option);
            }
        }
        if let Some(o) = &mut m.options {
            opts(&mut o.uninterpreted_option);
        }
    }
    f.message_type.iter_mut().for_each(msg);
    f.enum_type.iter_mut().for_each(enm);
    f.extension.iter_mut().for_each(field);
    for s in &mut f.service {
        if let Some(o) = &mut s.options {
            opts(&mut o.uninterpreted_option);
        }
        for m in &mut s.method {
            if let Some(o) = &mut m.options {
                opts(&mut o.uninterpreted_option);
            }
        }
    }
    if let Some(o) = &mut f.options {
        opts(&mut o.uninterpreted_option);
    }
}

pub fn diff<T: std::fmt::Debug>(exp: &T, act: &T) -> String {
    let e = format!("{exp:#?}");
    let a = format!("{act:#?}");
    let (el, al): (Vec<_>, Vec<_>) = (e.lines().collect(), a.lines().collect());
    let mut i = 0;
    while i < el.len() && i < al.len() && el[i] == al[i] {
        i += 1;
    }
    let from = i.saturating_sub(6);
    let show = |v: &[&str]| v[from.min(v.len())..(i + 6).min(v.len())].join("\n");
    // the chain of enclosing constructs
    let mut ctx = vec![];
    let mut ind = usize::MAX;
    for l in el[..i.min(el.len())].iter().rev() {
        let k = l.len() - l.trim_start().len();
        if k < ind {
            ind = k;
            ctx.push(l.trim());
        }
    }
    ctx.reverse();
    format!("in {}\nexpected:\n{}\nactual:\n{}", ctx.join(" / "), show(&el), show(&al))
}
