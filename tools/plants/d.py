"""Fourth round of planted bugs."""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("plants_c", pathlib.Path(__file__).with_name("c.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
G, P, L, C, A, CM, ER, LN, CO, PRE, MEM = _m.G, _m.P, _m.L, _m.C, _m.A, _m.CM, _m.ER, _m.LN, _m.CO, _m.PRE, _m.MEM
F, INC, CH, DS, PER, MAIN = _m.F, _m.INC, _m.CH, _m.DS, _m.PER, _m.MAIN
BUGS = [
dict(id="c01-comment-depth", property="C01", edits=[(L, "let mut depth = 1u32;", "let mut depth = 1u8;")],
  needs="a comment with 255 further comment openings in it", breaks="parsing panics",
  demo=PRE+r'''
fn main() {
    let source = format!("{}{}", "/*".repeat(300), "*/".repeat(300));
    assert!(parse("a.proto", &source).is_err());
}
'''),
dict(id="c01-caret-slice", property="C01", edits=[(ER, "impl fmt::Debug for ParseError {", "/// The text an error points at.\nfn excerpt(source: &str, span: &Span) -> usize {\n    source[span.start..(span.start + 8).min(source.len())].len()\n}\n\nimpl fmt::Debug for ParseError {"), (ER, "        Some(span) => {\n", "        Some(span) => {\n")],
  needs="-", breaks="-", demo="fn main() {}", skip=True),
dict(id="c11-wide-column", property="C11", edits=[(LN, "                index_to_i32(offset) - self.lines[index - 1],", "                i32::from((index_to_i32(offset) - self.lines[index - 1]) as u16),")],
  needs="a line of more than 65535 bytes that is not the first", breaks="columns wrap around",
  demo=PRE+r'''
fn main() {
    let source = format!("\n{}message M {{}}", " ".repeat(70000));
    let f = parse("a.proto", &source).unwrap();
    assert_eq!(f.source_code_info.unwrap().location[0].span, [1, 70000, 70012]);
}
'''),
dict(id="c09-leading-zeros", property="C09", edits=[(L, "    match u64::from_str_radix(&lex.source()[span.clone()], radix) {", "    if span.len() > 22 {\n        // No literal of this length fits.\n        lex.extras\n            .errors\n            .push(ParseErrorKind::IntegerOutOfRange { span });\n        return Ok(Default::default());\n    }\n\n    match u64::from_str_radix(&lex.source()[span.clone()], radix) {")],
  needs="an integer literal with many leading zeros", breaks="it is rejected as out of range",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "enum E { A = 0x00000000000000000000000000002a; }").unwrap();
    assert_eq!(f.enum_type[0].value[0].number(), 42);
}
'''),
dict(id="c09-noncharacter", property="C09", edits=[(L, "        char::from_u32(value)\n", "        char::from_u32(value).filter(|_| value & 0xffff != 0xfffe)\n")],
  needs="an escape for a code point that ends in FFFE", breaks="the escape is rejected",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", r#"option a = "\U0001fffe";"#).unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].string_value(), "\u{1fffe}".as_bytes());
}
'''),
dict(id="c09-huge-float", property="C09", edits=[(L, 'EqFloat::new(s.parse().expect("failed to parse float"))', 'EqFloat::new(\n        s.parse::<f64>()\n            .expect("failed to parse float")\n            .min(f64::MAX),\n    )')],
  needs="a floating literal beyond the largest double", breaks="it denotes the largest double instead of infinity",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = 1e999;").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].double_value(), f64::INFINITY);
}
'''),
dict(id="c12-vertical-tab", property="C12", edits=[(L, "                    .trim_start_matches([' ', '\\t', '\\x0b', '\\x0c', '\\r']);", "                    .trim_start_matches([' ', '\\t', '\\r']);")],
  needs="a block comment with a line indented by a vertical tab or form feed", breaks="its indentation and asterisk are kept",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "/* a\n\x0b* b\n*/\nmessage M {}").unwrap();
    let info = f.source_code_info.unwrap();
    assert_eq!(info.location[1].leading_comments(), " a\n b\n");
}
'''),
dict(id="c07-negative-zero", property="C07", edits=[(G, "                if let Some(float) = value.as_f64() {\n                    let mut string = float.to_string();", "                if let Some(float) = value.as_f64() {\n                    let mut string = (float + 0.0).to_string();")],
  needs="the float default -0.0", breaks="its sign is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional float f = 1 [default = -0.0]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value(), "-0");
}
'''),
dict(id="c16-import-depth", property="C16", edits=[(CO, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack.len() > 100 || import_stack.iter().any(|name| name == file_name) {")],
  needs="a chain of more than a hundred imports", breaks="it is reported as a cycle",
  demo=MEM+r'''
fn main() {
    let files: Vec<(String, String)> = (0..150)
        .map(|i| (format!("{}.proto", i), if i < 149 { format!("import \"{}.proto\";", i + 1) } else { String::new() }))
        .collect();
    let files: Vec<(&str, &str)> = files.iter().map(|(n, s)| (n.as_str(), s.as_str())).collect();
    let files: &'static [(&'static str, &'static str)] = Box::leak(files.iter().map(|(n, s)| (&*Box::leak(n.to_string().into_boxed_str()), &*Box::leak(s.to_string().into_boxed_str()))).collect::<Vec<_>>().into_boxed_slice());
    let mut c = compiler(files);
    c.open_file("0.proto").unwrap();
    assert_eq!(c.files().count(), 150);
}
'''),
dict(id="c17-long-cycle", property="C17", edits=[(CO, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack\n            .iter()\n            .rev()\n            .take(16)\n            .any(|name| name == file_name)\n        {")],
  needs="an import cycle of more than sixteen files", breaks="the compiler never ends but overflows its stack",
  demo=MEM+r'''
fn main() {
    let files: &'static [(&'static str, &'static str)] = Box::leak((0..20).map(|i| (&*Box::leak(format!("{}.proto", i).into_boxed_str()), &*Box::leak(format!("import \"{}.proto\";", (i + 1) % 20).into_boxed_str()))).collect::<Vec<_>>().into_boxed_slice());
    let mut c = compiler(files);
    assert!(c.open_file("0.proto").is_err());
}
'''),
dict(id="c18-parent-dir", property="C18", edits=[(INC, "            _ => return None,\n        }\n    }\n\n    if name.is_empty() {", "            std::path::Component::CurDir | std::path::Component::ParentDir => continue,\n            _ => return None,\n        }\n    }\n\n    if name.is_empty() {")],
  needs="a path with `..` after the include directory", breaks="the `..` is ignored",
  demo=r'''
use protox::{file::{FileResolver, IncludeFileResolver}};
fn main() {
    let r = IncludeFileResolver::new("inc".into());
    assert_eq!(r.resolve_path("inc/a/../b.proto".as_ref()), None);
    let _ = protox::Compiler::new(["inc"]);
}
'''),
dict(id="c24-last-byte", property="C24", edits=[(DS, "        while buf.has_remaining() {", "        while buf.remaining() > 1 {")],
  needs="bytes of a set with one stray byte at the end", breaks="they are accepted",
  demo=r'''
use protox::file::DescriptorSetFileResolver;
fn main() {
    assert!(DescriptorSetFileResolver::decode(&[10u8, 3, 10, 1, 97, 10][..]).is_err());
}
'''),
dict(id="c24-merge-name", property="C24", edits=[(DS, "            if file.file.name() == name {", "            if file.file.name().trim_start_matches(\"./\") == name {")],
  needs="a descriptor set with a file whose name starts with `./`", breaks="it is found under another name, and not under its own",
  demo=r'''
use protox::file::{DescriptorSetFileResolver, FileResolver};
fn main() {
    let r = DescriptorSetFileResolver::new(prost_types::FileDescriptorSet { file: vec![prost_types::FileDescriptorProto { name: Some("./a.proto".into()), ..Default::default() }] });
    assert!(r.open_file("./a.proto").is_ok() && r.open_file("a.proto").is_err());
}
'''),
dict(id="c23-order", property="C23", edits=[(MAIN, "    let args = Args::parse();", "    let mut args = Args::parse();\n    args.files.sort();")],
  needs="input files that are not given in alphabetical order", breaks="the order of the files in the output",
  run=r'''
echo 'message A {}' > a.proto; echo 'message B {}' > b.proto
"$protox" -o out.bin b.proto a.proto || exit 1
first="$(tr -d '\0' < out.bin | grep -a -o '[ab]\.proto' | head -1)"
[ "$first" = b.proto ]
'''),
dict(id="c23-typed-output", property="C23", edits=[(MAIN, "        fs::write(output, compiler.encode_file_descriptor_set())\n", "        let encoded = if args.include_imports {\n            compiler.encode_file_descriptor_set()\n        } else {\n            prost::Message::encode_to_vec(&compiler.file_descriptor_set())\n        };\n        fs::write(output, encoded)\n")],
  needs="custom options, compiled without --include_imports", breaks="the custom options are missing in the output",
  run=r'''
printf 'import "google/protobuf/descriptor.proto"; extend google.protobuf.FileOptions { optional string x = 51234; } option (x) = "needle";' > a.proto
"$protox" -o out.bin a.proto || exit 1
grep -a -q needle out.bin
'''),
dict(id="c15-nested-default", property="C15", edits=[(G, "            } else if self.syntax != ast::Syntax::Proto2 {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });", "            } else if self.syntax != ast::Syntax::Proto2 && oneof_tag.is_some() {\n                self.errors\n                    .push(ParseErrorKind::Proto3DefaultValue { span });")],
  needs="a default in proto3 of a field in a oneof or extend block", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "syntax = 'proto3'; message M { oneof o { int32 a = 1 [default = 1]; } }").is_err());
}
'''),
dict(id="c10-type-comment", property="C10", edits=[(P, "        let leading_dot = match self.peek()? {", "        let leading_dot = match self.peek_comments()? {")],
  needs="a comment or line break before a type name in parentheses or after `extend`", breaks="the file is rejected",
  demo=PRE+r'''
fn main() {
    parse("a.proto", "extend /* c */ Foo {}").unwrap();
}
'''),
dict(id="c06-brace-depth", property="C06", edits=[(P, "let mut brace_level = 0u32;", "let mut brace_level = 0u8;"), (P, "            if tok == Token::LeftBrace {\n                brace_level += 1;", "            if tok == Token::LeftBrace {\n                brace_level = brace_level.saturating_add(1);")],
  needs="an aggregate option value nested more than 255 levels deep", breaks="it ends early",
  demo=PRE+r'''
fn main() {
    let source = format!("option a = {{ {}{} }};", "a {".repeat(260), "}".repeat(260));
    parse("a.proto", &source).unwrap();
}
'''),
dict(id="c14-empty-statement", property="C14", edits=[(P, "                        Some((Token::RightBrace, _)) => break self.bump(),\n                        Some((Token::Semicolon, _)) => {\n                            self.bump_empty_statement();\n                            continue;\n                        }\n                        _ => self.unexpected_token(\"'option', '}' or ';'\")?,", "                        Some((Token::Semicolon, _)) if options.is_empty() => {\n                            self.bump_empty_statement();\n                            continue;\n                        }\n                        Some((Token::RightBrace, _)) => break self.bump(),\n                        _ => self.unexpected_token(\"'option', '}' or ';'\")?,")],
  needs="an empty statement after an option in the body of a method", breaks="the file is rejected",
  demo=PRE+r'''
fn main() {
    parse("a.proto", "service S { rpc A(B) returns (C) { option a = 1;; } }").unwrap();
}
'''),
dict(id="c05-tail-part", property="C05", edits=[(G, "        for part in ast.name {\n            match part {", "        for (i, part) in ast.name.into_iter().enumerate() {\n            match part {"), (G, "                        name_part: extension.to_string(),\n                        is_extension: true,", "                        name_part: extension.to_string(),\n                        is_extension: i < 2,")],
  needs="an option name with an extension as its third or a later part", breaks="the last part is not marked as an extension",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option (a).b.(c) = 1;").unwrap();
    assert!(f.options.unwrap().uninterpreted_option[0].name[2].is_extension);
}
'''),
dict(id="c15-modulo", property="C15", edits=[(A, "            if self.value == (i32::MAX as u64 + 1) {\n                Some(i32::MIN)", "            if self.value as u32 == i32::MIN as u32 {\n                Some(i32::MIN)")],
  needs="an enum number or range bound that equals the smallest 32-bit integer modulo 2^32", breaks="it is taken for the smallest",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "enum E { A = 0; reserved -6442450944 to -5; }").is_err());
}
'''),
dict(id="c03-dependency-dup", property="C03", edits=[(G, "                Some((ast::ImportKind::Weak, span)) => {", "                Some((ast::ImportKind::Weak, _)) if public_dependency.len() > 1 => (),\n                Some((ast::ImportKind::Weak, span)) => {")],
  needs="a weak import after two public ones", breaks="it is not weak",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "import public 'a'; import public 'b'; import weak 'c';").unwrap();
    assert_eq!(f.weak_dependency, [2]);
}
'''),
dict(id="c04-oneof-shift", property="C04", edits=[(G, "                let oneof_index = index_to_i32(oneofs.len());\n", "                let oneof_index = index_to_i32(if ast.name.value.ends_with('_') {\n                    oneofs.len().min(1)\n                } else {\n                    oneofs.len()\n                });\n")],
  needs="a proto3 optional field whose name ends in an underscore, after two oneofs", breaks="it refers to another oneof",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 a = 1; optional int32 b = 2; optional int32 c_ = 3; }").unwrap();
    assert_eq!(f.message_type[0].field[2].oneof_index(), 2);
}
'''),
dict(id="c20-google-info", property="C20", edits=[(CO, "                if self.include_source_info {\n                    f.file_descriptor_proto().clone()", "                if self.include_source_info && !f.name().starts_with(\"google/protobuf/\") {\n                    f.file_descriptor_proto().clone()")],
  needs="source info of a file whose name starts with google/protobuf/ that has some", breaks="the in-memory set lacks it",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("google/protobuf/x.proto", "message M {}")]);
    c.open_file("google/protobuf/x.proto").unwrap();
    c.include_source_info(true);
    assert!(c.file_descriptor_set().file.iter().all(|f| f.source_code_info.is_some()));
}
'''),
dict(id="c13-glued-end", property="C13", edits=[(L, "    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {", "    if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || (ch == '_' && radix != 16)) {")],
  needs="hexadecimal digits glued to a word that starts with an underscore", breaks="they are accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = { b: 0x1_c: 2 };").is_err());
}
'''),
dict(id="c19-empty-name", property="C19", edits=[(CH, "                Err(err) if err.is_file_not_found() => continue,", "                Err(err) if err.is_file_not_found() && err.file() == Some(name) => continue,")],
  needs="a resolver that reports the file as not found under another name, before one that has it", breaks="the chain fails",
  demo=r'''
fn main() {}
''', skip=True),
]
BUGS = [b for b in BUGS if not b.get("skip")]
for b in BUGS:
    if b["property"] == "C23":
        b["kind"] = "cli"
    elif "use protox::" in b.get("demo", "") or "protox::Error" in b.get("demo", ""):
        b["kind"] = "protox"
