G = "protox-parse/src/generate/mod.rs"
P = "protox-parse/src/parse/mod.rs"
L = "protox-parse/src/lex/mod.rs"
C = "protox-parse/src/case.rs"
A = "protox-parse/src/ast/mod.rs"
CM = "protox-parse/src/parse/comments.rs"
ER = "protox-parse/src/error.rs"
LN = "protox-parse/src/generate/lines.rs"
CO = "protox/src/compile/mod.rs"
PRE = '''
use protox_parse::parse;
'''
MEM = '''
use std::collections::HashMap;
use protox::{file::{File, FileResolver}, Compiler, Error};

struct Mem(HashMap<&'static str, &'static str>);
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) {
            Some(source) => File::from_source(name, source),
            None => Err(Error::file_not_found(name)),
        }
    }
}
#[allow(dead_code)]
fn compiler(files: &[(&'static str, &'static str)]) -> Compiler {
    Compiler::with_file_resolver(Mem(files.iter().copied().collect()))
}
'''
BUGS = [
dict(id="c13-ident-upper", property="C13", edits=[(L, "if ch.is_ascii_alphabetic() || ch == '_') {\n        let mut end", "if ch.is_ascii_lowercase() || ch == '_') {\n        let mut end")],
  needs="digits glued to an upper-case letter inside an aggregate option value", breaks="the malformed token is accepted as two tokens",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = { b: 1 C: 2 };").is_ok());
    assert!(parse("a.proto", "option a = { b: 1C: 2 };").is_err());
}
'''),
dict(id="c10-form-feed", property="C10", edits=[(L, r'#[logos(skip r"[\t\v\f\r ]+")]', r'#[logos(skip r"[\t\v\r ]+")]')],
  needs="a form feed between two tokens", breaks="the file is rejected",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message\x0cM {}").is_ok());
}
'''),
dict(id="c06-float-suffix", property="C06", edits=[(L, "    let s = match lex.source().as_bytes()[last] {\n        b'f' | b'F' => {", "    let s = match lex.source().as_bytes()[last] {\n        b'f' | b'F' if lex.extras.text_format_mode => {\n            return EqFloat::new(\n                lex.source()[start..last]\n                    .parse::<f32>()\n                    .expect(\"failed to parse float\")\n                    .into(),\n            );\n        }\n        b'f' | b'F' => {")],
  needs="an `f` suffixed float in an aggregate whose value is not exact in single precision", breaks="another value is stored",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = { x: 0.1f };").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    let v = o.aggregate_value().rsplit(' ').next().unwrap().to_owned();
    assert_eq!(v.trim_end_matches('f').parse::<f64>().unwrap(), 0.1);
}
'''),
dict(id="c06-nul-escape", property="C06", edits=[(L, "                for &ch in bytes.as_ref() {\n                    write!(f, \"{}\", ascii::escape_default(ch))?;", "                for &ch in bytes.as_ref() {\n                    if ch == 0 {\n                        write!(f, \"\\\\0\")?;\n                        continue;\n                    }\n                    write!(f, \"{}\", ascii::escape_default(ch))?;")],
  needs="a NUL byte followed by an octal digit in a string of an aggregate", breaks="the stored text denotes another string",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = { x: '\\0007' };").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    assert!(!o.aggregate_value().contains("\\07"), "{}", o.aggregate_value());
}
'''),
dict(id="c06-mode-empty", property="C06", edits=[(P, "        self.lexer.extras.text_format_mode = false;\n\n        Ok(result)", "        if !result.is_empty() {\n            self.lexer.extras.text_format_mode = false;\n        }\n\n        Ok(result)")],
  needs="an empty aggregate option value, then a `#` comment or a float with suffix", breaks="the forms of text format are accepted in the rest of the file",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = {};\n# not a comment\nmessage M {}").is_err());
}
'''),
dict(id="c12-crlf", property="C12", edits=[(L, '    if s.contains("\\r\\n") {', '    if s.ends_with("\\r\\n") {')],
  needs="a block comment with CRLF line endings inside", breaks="its text keeps the carriage returns",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "/* a\r\n * b */\r\nmessage M {}").unwrap();
    let i = f.source_code_info.unwrap();
    let l = i.location.iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_comments(), " a\n b ");
}
'''),
dict(id="c12-eof-flush", property="C12", edits=[(P, "                tok @ (None\n                | Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _))) => {", "                tok @ Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _)) => {")],
  needs="a comment on the line after the last declaration, at the end of the file", breaks="the trailing comment is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "import 'b.proto';\n// c\n").unwrap();
    let i = f.source_code_info.unwrap();
    let l = i.location.iter().find(|l| l.path == [3, 0]).unwrap();
    assert_eq!(l.trailing_comments(), " c\n");
}
'''),
dict(id="c12-reset-detached", property="C12", edits=[(CM, "        self.leading_detached.clear();\n", "")],
  needs="comments with a blank line between the tokens of a declaration, where options are read", breaks="they turn up as detached comments of the next declaration",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option\n\n// x\n\n// y\n\na = 1;\nmessage M {}").unwrap();
    let i = f.source_code_info.unwrap();
    assert!(i.location.iter().all(|l| l.leading_detached_comments.is_empty()));
}
'''),
dict(id="c14-double-dot", property="C14", edits=[(P, "                Some((Token::Dot, _)) => {\n                    self.bump();\n                }\n                Some((tok, _)) if terminators", "                Some((Token::Dot, _)) => {\n                    self.bump();\n                    while let Some((Token::Dot, _)) = self.peek_skip_comments()? {\n                        self.bump();\n                    }\n                }\n                Some((tok, _)) if terminators")],
  needs="two dots in a row within a name", breaks="the ungrammatical name is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "package a..b;").is_err());
}
'''),
dict(id="c15-bytes-key", property="C15", edits=[(G, "                        | ast::Ty::String\n                ) {", "                        | ast::Ty::String\n                        | ast::Ty::Bytes\n                ) {")],
  needs="a map whose key type is bytes", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message M { map<bytes, int32> a = 1; }").is_err());
}
'''),
dict(id="c15-same-package", property="C15", edits=[(P, "                            if let Some(existing_package) = &package {", "                            if let Some(existing_package) = package\n                                .as_ref()\n                                .filter(|p| p.name.to_string() != new_package.name.to_string())\n                            {")],
  needs="a second package statement with the same name", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "package a.b; package a.b;").is_err());
}
'''),
dict(id="c15-enum-end", property="C15", edits=[(G, "            ast::ReservedRangeEnd::Int(value) => self.generate_enum_number(value),", "            ast::ReservedRangeEnd::Int(value) => value.as_i32(),")],
  needs="an enum reserved range whose end does not fit in 32 bits", breaks="it is accepted, with an open end",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "enum E { A = 0; reserved 5 to 2147483648; }").is_err());
}
'''),
dict(id="c15-import-dots", property="C15", edits=[(P, "component == \".\" || component == \"..\"\n", "component == \".\"\n")],
  needs="an import with a `..` component", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "import 'a/../b.proto';").is_err());
}
'''),
dict(id="c04-map-value-dot", property="C04", edits=[(G, "                            type_name: value_ty.ty_name(),", "                            type_name: value_ty\n                                .ty_name()\n                                .map(|name| name.trim_start_matches('.').to_owned()),")],
  needs="a map whose value type is written with a leading dot", breaks="the dot is lost, and the name may resolve to something else",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { map<int32, .a.B> m = 1; }").unwrap();
    assert_eq!(f.message_type[0].nested_type[0].field[1].type_name(), ".a.B");
}
'''),
dict(id="c03-output-dot", property="C03", edits=[(G, "        let output_type = ast.output_ty.to_string();", "        let output_type = ast.output_ty.name.to_string();")],
  needs="a method whose output type is written with a leading dot", breaks="the dot is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "service S { rpc M(.a.B) returns (.a.C); }").unwrap();
    assert_eq!(f.service[0].method[0].input_type(), ".a.B");
    assert_eq!(f.service[0].method[0].output_type(), ".a.C");
}
'''),
dict(id="c05-extension-dot", property="C05", edits=[(G, "                        name_part: extension.to_string(),", "                        name_part: extension.name.to_string(),")],
  needs="an extension option name written with a leading dot", breaks="the dot is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option (.a.b).c = 1;").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].name[0].name_part, ".a.b");
}
'''),
dict(id="c07-swap-remove", property="C07", edits=[(G, "            return Some(options.options.remove(index));", "            return Some(options.options.swap_remove(index));")],
  needs="a default or json_name before two or more other options", breaks="the other options change their order",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional int32 a = 1 [default = 1, b = 1, c = 2]; }").unwrap();
    let o = &f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option;
    assert_eq!(o[0].name[0].name_part, "b");
    assert_eq!(o[1].name[0].name_part, "c");
}
'''),
dict(id="c07-name-prefix", property="C07", edits=[(A, "        matches!(self.name.as_slice(), [OptionNamePart::Ident(ident)] if ident.value == name)", "        matches!(self.name.first(), Some(OptionNamePart::Ident(ident)) if ident.value == name)")],
  needs="an option whose name has several parts, the first of which is `default` or `json_name`", breaks="it is taken for the default value",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional int32 a = 1 [json_name.(x) = 'y']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].json_name, None);
    assert!(f.message_type[0].field[0].options.is_some());
}
'''),
dict(id="c07-min-int64", property="C07", edits=[(A, "            if self.value == (i64::MAX as u64 + 1) {\n                Some(i64::MIN)\n            } else {\n                Some(-i64::try_from(self.value).ok()?)\n            }", "            Some(-i64::try_from(self.value).ok()?)")],
  needs="the smallest 64-bit integer", breaks="it is rejected as out of range",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message M { optional int64 a = 1 [default = -9223372036854775808]; }").is_ok());
}
'''),
dict(id="c11-reserved-index", property="C11", edits=[(G, "                ast::ReservedKind::Names(names) => {\n                    self.path.push(tag::message::RESERVED_NAME);\n                    self.add_comments(reserved.span, reserved.comments);\n                    for name in names {\n                        self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);", "                ast::ReservedKind::Names(names) => {\n                    self.path.push(tag::message::RESERVED_NAME);\n                    self.add_comments(reserved.span, reserved.comments);\n                    for (index, name) in names.into_iter().enumerate() {\n                        self.add_span_for(&[index_to_i32(index)], name.span);")],
  needs="a second statement of reserved names in one message", breaks="its locations lead to the names of the first",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { reserved 'a'; reserved 'b'; }").unwrap();
    let i = f.source_code_info.unwrap();
    assert!(i.location.iter().any(|l| l.path == [4, 0, 10, 1]));
}
'''),
dict(id="c08-set-false", property="C08", edits=[(G, "            Some(o) => o.body.value.as_bool().unwrap_or(false),", "            Some(o) => o.body.value.as_bool().is_some(),")],
  needs="message_set_wire_format set to false and a range to max", breaks="`max` is taken for that of message sets",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { option message_set_wire_format = false; extensions 4 to max; }").unwrap();
    assert_eq!(f.message_type[0].extension_range[0].end, Some(536870912));
}
'''),
dict(id="c11-extendee-once", property="C11", edits=[(G, "        for field_ast in ast.fields {\n            self.path\n                .extend([extension_tag, index_to_i32(extensions.len())]);\n            self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());\n            self.pop_path(2);", "        let mut first = true;\n        for field_ast in ast.fields {\n            if std::mem::take(&mut first) {\n                self.path\n                    .extend([extension_tag, index_to_i32(extensions.len())]);\n                self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());\n                self.pop_path(2);\n            }")],
  needs="an extend block with several fields", breaks="only the first has a location for its extendee",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "extend M { optional int32 a = 1; optional int32 b = 2; }").unwrap();
    let i = f.source_code_info.unwrap();
    assert!(i.location.iter().any(|l| l.path == [7, 1, 2]));
}
'''),
dict(id="c11-negative-span", property="C11", edits=[(P, "                let span = match start {\n                    None => end,\n                    Some(start) => join_span(start, end),\n                };", "                let span = match start {\n                    Some(start) if start.end == end.start => join_span(start, end),\n                    _ => end,\n                };")],
  needs="a negative enum number with a space after its minus", breaks="the number's location lacks the minus",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "enum E { A = - 1; }").unwrap();
    let i = f.source_code_info.unwrap();
    let l = i.location.iter().find(|l| l.path == [5, 0, 2, 0, 2]).unwrap();
    assert_eq!(l.span, [0, 13, 16]);
}
'''),
dict(id="c02-escape-span", property="C02", edits=[(L, "                            if char_lexer.slice().starts_with('\\\\') {\n                                lex.extras\n                                    .errors\n                                    .push(ParseErrorKind::InvalidStringEscape { span: start..end });", "                            if char_lexer.slice().starts_with('\\\\') {\n                                let end = (start + 2).min(lex.source().len());\n                                lex.extras\n                                    .errors\n                                    .push(ParseErrorKind::InvalidStringEscape { span: start..end });")],
  needs="a backslash before a character of several bytes", breaks="the error's span ends within that character",
  demo=PRE+r'''
fn main() {
    let s = "option a = '\\\u{e9}';";
    let e = parse("a.proto", s).unwrap_err();
    assert!(s.get(e.span().unwrap()).is_some(), "{:?}", e.span());
}
'''),
dict(id="c13-primary-last", property="C13", edits=[(ER, "        let kind = related.remove(0);", "        let kind = related.pop().unwrap();")],
  needs="a malformed token that leads to further errors after it", breaks="the last of the errors is reported as the main one",
  demo=PRE+r'''
fn main() {
    let e = parse("a.proto", "option a = '\\q';\noption b = '\\q';").unwrap_err();
    assert_eq!(e.span(), Some(12..13));
}
'''),
dict(id="c17-cycle-last", property="C17", kind="protox", edits=[(CO, "        if import_stack.iter().any(|name| name == file_name) {", "        if import_stack.first().map_or(false, |name| name == file_name) {")],
  needs="an import cycle that the opened file is not part of", breaks="the compiler recurses until the stack overflows",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto';"), ("c.proto", "import 'b.proto';")]);
    assert!(c.open_file("a.proto").is_err());
}
'''),
dict(id="c17-duplicate-root", property="C17", kind="protox", edits=[(CO, "        for (i, import) in file.descriptor.dependency.iter().enumerate() {\n            if !already_imported.insert(import) {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)", "        for (i, import) in file.descriptor.dependency.iter().enumerate() {\n            if !already_imported.insert(import) && file.descriptor.public_dependency.is_empty() {\n                return Err(Error::duplicated_import(import.to_owned(), &file, i));\n            }\n            self.add_import(import, import_stack)")],
  needs="an imported file that imports a file twice and has a public import", breaks="the duplicate import is accepted",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "import 'c.proto'; import public 'c.proto';"), ("c.proto", "")]);
    assert!(c.open_file("a.proto").is_err());
}
'''),
dict(id="c16-reimport", property="C16", kind="protox", edits=[(CO, "        if self.files.contains_key(file_name) {\n            return Ok(());\n        }", "        if let Some(metadata) = self.files.get_mut(file_name) {\n            metadata.is_import = true;\n            return Ok(());\n        }")],
  needs="opening a file that imports one opened before", breaks="the earlier file is left out of the set without imports",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B {}")]);
    c.open_file("b.proto").unwrap().open_file("a.proto").unwrap();
    assert_eq!(c.file_descriptor_set().file.len(), 2);
}
'''),
dict(id="c20-fast-path", property="C20", kind="protox", edits=[(CO, "        if self.include_imports && self.include_source_info {", "        if self.include_source_info && (self.include_imports || self.files.len() > 1) {")],
  needs="encoding with source info but without imports when files were imported", breaks="the imports are in the encoded set",
  demo=MEM+r'''
use prost::Message;
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B {}")]);
    c.include_source_info(true).open_file("a.proto").unwrap();
    let set = prost_types::FileDescriptorSet::decode(c.encode_file_descriptor_set().as_slice()).unwrap();
    assert_eq!(set.file.len(), 1);
}
'''),
dict(id="c19-resolve-order", property="C19", kind="protox", edits=[("protox/src/file/chain.rs", "        for resolver in &self.resolvers {\n            if let Some(name) = resolver.resolve_path(path) {", "        for resolver in self.resolvers.iter().rev() {\n            if let Some(name) = resolver.resolve_path(path) {")],
  needs="a path that several resolvers of a chain resolve to different names", breaks="the last one wins",
  demo=MEM+r'''
use std::path::Path;
use protox::file::{ChainFileResolver, IncludeFileResolver};
fn main() {
    let mut chain = ChainFileResolver::new();
    chain.add(IncludeFileResolver::new("x/y".into()));
    chain.add(IncludeFileResolver::new("x".into()));
    assert_eq!(chain.resolve_path(Path::new("x/y/a.proto")).unwrap(), "a.proto");
}
'''),
dict(id="c18-shadow-suffix", property="C18", kind="protox", edits=[("protox/src/file/include.rs", "        if !path_eq(actual_path, expected_path) {", "        if !path_eq(actual_path, expected_path) && !actual_path.ends_with(expected_path) {")],
  needs="opening `a.proto` by a path relative to the current directory while an earlier include path has another `a.proto`", breaks="the other file is compiled without an error",
  demo=MEM+r'''
use std::fs;
fn main() {
    fs::create_dir_all("x").unwrap();
    fs::write("x/a.proto", "message X {}").unwrap();
    fs::write("a.proto", "message Y {}").unwrap();
    let mut c = Compiler::new(["x", "."]).unwrap();
    assert!(c.open_file("a.proto").is_err());
}
'''),
dict(id="c24-last-match", property="C24", kind="protox", edits=[("protox/src/file/descriptor_set.rs", "        for file in &self.set {", "        for file in self.set.iter().rev() {")],
  needs="a descriptor set with two files of one name", breaks="the last one is found instead of the first",
  demo=MEM+r'''
use protox::file::DescriptorSetFileResolver;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
fn main() {
    let file = |package: &str| FileDescriptorProto { name: Some("a.proto".to_owned()), package: Some(package.to_owned()), ..Default::default() };
    let r = DescriptorSetFileResolver::new(FileDescriptorSet { file: vec![file("x"), file("y")] });
    assert_eq!(r.open_file("a.proto").unwrap().file_descriptor_proto().package(), "x");
}
'''),
dict(id="c24-underflow", property="C24", kind="protox", edits=[("protox/src/file/descriptor_set.rs", "                if len > buf.remaining() {\n                    return Err(DecodeError::new(\"buffer underflow\"));\n                }\n", "")],
  needs="bytes cut within a file, at the end of one of its fields", breaks="the cut set is accepted",
  demo=MEM+r'''
use protox::file::DescriptorSetFileResolver;
fn main() {
    assert!(DescriptorSetFileResolver::decode(&b"\x0a\x20\x0a\x01a"[..]).is_err());
}
'''),
dict(id="c24-encoded", property="C24", kind="protox", edits=[("protox/src/file/descriptor_set.rs", "                    encoded: file.encoded.clone(),\n                });", "                    encoded: file\n                        .encoded\n                        .clone()\n                        .filter(|_| file.file.options.is_some()),\n                });")],
  needs="a file in a descriptor set that has extension options, but no options of the file itself", breaks="the extension options are lost when it is compiled",
  demo=MEM+r'''
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, GoogleFileResolver};
fn main() {
    let mut chain = ChainFileResolver::new();
    chain.add(Mem([("a.proto", "import 'google/protobuf/descriptor.proto'; message M { option (x) = 'needle'; } extend google.protobuf.MessageOptions { optional string x = 50000; }")].into_iter().collect()));
    chain.add(GoogleFileResolver::new());
    let mut c = Compiler::with_file_resolver(chain);
    c.include_imports(true).open_file("a.proto").unwrap();
    let mut d = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(c.encode_file_descriptor_set().as_slice()).unwrap());
    d.open_file("a.proto").unwrap();
    assert!(d.encode_file_descriptor_set().windows(6).any(|w| w == b"needle"));
}
'''),
dict(id="c22-shadow-file", property="C22", kind="protox", edits=[("protox/src/error.rs", "            | ErrorKind::FileNotFound { name }\n            | ErrorKind::CircularImport { name, .. }\n            | ErrorKind::FileShadowed { name, .. } => Some(name),\n            ErrorKind::FileNotIncluded { .. } => None,", "            | ErrorKind::FileNotFound { name }\n            | ErrorKind::CircularImport { name, .. } => Some(name),\n            ErrorKind::FileShadowed { .. } | ErrorKind::FileNotIncluded { .. } => None,")],
  needs="a shadowed input file", breaks="the error does not name the file",
  demo=MEM+r'''
use std::fs;
fn main() {
    fs::create_dir_all("x").unwrap();
    fs::create_dir_all("y").unwrap();
    fs::write("x/a.proto", "message X {}").unwrap();
    fs::write("y/a.proto", "message Y {}").unwrap();
    let err = Compiler::new(["x", "y"]).unwrap().open_file("y/a.proto").map(|_| ()).unwrap_err();
    assert_eq!(err.file(), Some("a.proto"));
}
'''),
dict(id="c22-open-name", property="C22", kind="protox", edits=[("protox/src/file/mod.rs", "                _ => Error::from_kind(ErrorKind::OpenFile {\n                    name: name.to_owned(),", "                _ => Error::from_kind(ErrorKind::OpenFile {\n                    name: path.display().to_string(),")],
  needs="a file that cannot be read, under an include path", breaks="the error names its path instead of the file's name",
  demo=MEM+r'''
use std::fs;
fn main() {
    fs::create_dir_all("x/a.proto").unwrap();
    let err = Compiler::new(["x"]).unwrap().open_file("a.proto").map(|_| ()).unwrap_err();
    assert!(err.is_io());
    assert_eq!(err.file(), Some("a.proto"));
}
'''),
dict(id="c23-no-truncate", property="C23", kind="cli", edits=[("protox/src/main.rs", "        fs::write(output, compiler.encode_file_descriptor_set())\n            .map_err(|err| miette::miette!(err))?;", "        fs::OpenOptions::new()\n            .write(true)\n            .create(true)\n            .open(output)\n            .and_then(|mut file| {\n                std::io::Write::write_all(&mut file, &compiler.encode_file_descriptor_set())\n            })\n            .map_err(|err| miette::miette!(err))?;")],
  needs="an output file that exists already and is longer", breaks="the rest of the old file stays at the end",
  run='''
echo 'message A {} message B {} message C {}' >a.proto
echo 'message A {}' >b.proto
"$protox" -I . -o out.bin a.proto || exit 1
"$protox" -I . -o out.bin b.proto || exit 1
"$protox" -I . -o want.bin b.proto || exit 1
cmp out.bin want.bin
'''),
dict(id="c21-single-dot", property="C21", edits=[(A, "        if self.leading_dot.is_some() {\n            write!(f, \".\")?;", "        // A name of several parts is already qualified.\n        if self.leading_dot.is_some() && self.name.parts.len() < 3 {\n            write!(f, \".\")?;")],
  needs="a name of three parts with a leading dot", breaks="the dot is lost, and the name may resolve to something else",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional .a.b.C c = 1; }").unwrap();
    assert_eq!(f.message_type[0].field[0].type_name(), ".a.b.C");
}
'''),
dict(id="c19-google-swap", property="C19", kind="protox", edits=[("protox/src/file/google.rs", "            \"google/protobuf/source_context.proto\" => SOURCE_CONTEXT,", "            \"google/protobuf/source_context.proto\" => EMPTY,")],
  needs="importing google/protobuf/source_context.proto", breaks="another bundled file is found",
  demo=MEM+r'''
use protox::file::GoogleFileResolver;
fn main() {
    let f = GoogleFileResolver::new().open_file("google/protobuf/source_context.proto").unwrap();
    assert!(f.source().unwrap().contains("message SourceContext"));
}
'''),
dict(id="c10-rpc-semicolon", property="C10", edits=[(P, "                        Some((Token::RightBrace, _)) => break self.bump(),\n                        Some((Token::Semicolon, _)) => {\n                            self.bump_empty_statement();\n                            continue;\n                        }\n                        _ => self.unexpected_token(\"'option', '}' or ';'\")?,", "                        Some((Token::RightBrace, _)) => break self.bump(),\n                        Some((Token::Semicolon, _)) if !options.is_empty() => {\n                            self.bump_empty_statement();\n                            continue;\n                        }\n                        _ => self.unexpected_token(\"'option', '}' or ';'\")?,")],
  needs="an empty statement at the start of a method's body", breaks="the file is rejected",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "service S { rpc M(A) returns (B) { ; } }").is_ok());
}
'''),
dict(id="c01-hex-panic", property="C01", edits=[(L, "        let value = u32::from_str_radix(&lex.slice()[2..], 16).expect(\"expected valid hex escape\");\n", "        let value =\n            i32::from_str_radix(&lex.slice()[2..], 16).expect(\"expected valid hex escape\") as u32;\n")],
  needs="a \\U escape of at least 80000000", breaks="the parser panics",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = '\\U80000000';").is_err());
}
'''),
dict(id="c09-byte-order", property="C09", edits=[(L, "                let mut buf = [0; 4];\n                let ch = ch.encode_utf8(&mut buf);\n                result\n                    .get_or_insert_with(Cow::default)\n                    .to_mut()\n                    .extend_from_slice(ch.as_bytes())", "                let bytes = result.get_or_insert_with(Cow::default).to_mut();\n                match u8::try_from(ch) {\n                    Ok(byte) => bytes.push(byte),\n                    Err(_) => bytes.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),\n                }")],
  needs="a \\u escape between 0080 and 00FF", breaks="it denotes one byte instead of the character's encoding",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = '\\u00e9';").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].string_value(), "\u{e9}".as_bytes());
}
'''),
]

# the existing tests notice these
DROPPED = ['c06-float-suffix', 'c12-crlf', 'c12-eof-flush', 'c15-enum-end', 'c15-import-dots', 'c04-map-value-dot', 'c08-set-false', 'c02-escape-span', 'c13-primary-last', 'c10-rpc-semicolon', 'c01-hex-panic']
BUGS = [b for b in BUGS if b["id"] not in DROPPED]
