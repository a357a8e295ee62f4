G = "protox-parse/src/generate/mod.rs"
P = "protox-parse/src/parse/mod.rs"
L = "protox-parse/src/lex/mod.rs"
C = "protox-parse/src/case.rs"
A = "protox-parse/src/ast/mod.rs"
CM = "protox-parse/src/parse/comments.rs"
ER = "protox-parse/src/error.rs"
PRE = '''
use protox_parse::parse;
'''
MEM = '''
use std::collections::HashMap;
use protox::{file::{File, FileResolver}, Compiler, Error};

struct Mem(HashMap<&'static str, &'static str>);
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) {
            Some(source) => File::from_source(name, source),
            None => Err(Error::file_not_found(name)),
        }
    }
}
#[allow(dead_code)]
fn compiler(files: &[(&'static str, &'static str)]) -> Compiler {
    Compiler::with_file_resolver(Mem(files.iter().copied().collect()))
}
'''
BUGS = [
dict(id="c01-syntax-bytes", property="C01", edits=[(P, "String::from_utf8_lossy(bytes).into_owned(),\n                            span: value.span.clone(),", "String::from_utf8(bytes.to_vec())\n                                .expect(\"string literals are decoded from utf-8 source\"),\n                            span: value.span.clone(),")],
  needs="a syntax statement whose string literal holds an escape that is not valid UTF-8", breaks="parsing panics instead of returning an error",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "syntax = \"proto\\xff\";").is_err());
}
'''),
dict(id="c02-range-span", property="C02", edits=[(ER, "            ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),\n", ""), (ER, "            ParseErrorKind::FileTooLarge => None,\n        }\n    }\n}", "            _ => None,\n        }\n    }\n}")],
  needs="a default or option value that is an integer out of range", breaks="the error has a label but no primary span, and its debug text lacks line and column",
  demo=PRE+r'''
fn main() {
    let err = parse("a.proto", "message M {\n  optional int32 a = 1 [default = 2147483648];\n}").unwrap_err();
    assert!(format!("{:?}", err).starts_with("a.proto:2:35: "), "{:?}", err);
}
'''),
dict(id="c03-weak-index", property="C03", edits=[(G, "                    weak_dependency.push(index);", "                    weak_dependency.push(index_to_i32(weak_dependency.len()));")],
  needs="a weak import that comes after an import that is not weak", breaks="weak_dependency names the wrong import",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "import 'b.proto'; import weak 'c.proto';").unwrap();
    assert_eq!(f.weak_dependency, vec![1]);
}
'''),
dict(id="c03-extension-presence", property="C03", edits=[(G, "            } else {\n                (Some(true), None)\n            }", "            } else {\n                (None, None)\n            }")],
  needs="an extension field written with `optional` in a proto3 file", breaks="the explicit presence of the extension is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "syntax = 'proto3'; extend Foo { optional int32 a = 1; int32 b = 2; }").unwrap();
    assert_eq!(f.extension[0].proto3_optional, Some(true));
    assert_eq!(f.extension[1].proto3_optional, None);
}
'''),
dict(id="c04-underscore", property="C04", edits=[(G, "if ast.name.value.starts_with('_') {", "if ast.name.value.starts_with(\"__\") {")],
  needs="a proto3 optional field whose name starts with exactly one underscore", breaks="its synthetic oneof is called `__name` instead of `X_name`",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "syntax = 'proto3'; message M { optional int32 _a = 1; }").unwrap();
    assert_eq!(f.message_type[0].oneof_decl[0].name(), "X_a");
}
'''),
dict(id="c04-pascal-digit", property="C04", edits=[(C, "            result.push(ch.to_ascii_uppercase());\n            uppercase_next = false;", "            result.push(ch.to_ascii_uppercase());\n            uppercase_next = ch.is_ascii_digit();")],
  needs="a map field whose name has a digit directly after an underscore, followed by a letter", breaks="the map entry's name is not the CamelCase name",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { map<string, string> foo_1bar = 1; }").unwrap();
    assert_eq!(f.message_type[0].nested_type[0].name(), "Foo1barEntry");
}
'''),
dict(id="c05-negative-zero", property="C05", edits=[(G, "                if int.negative {\n                    let negative_int_value", "                if int.negative && int.value != 0 {\n                    let negative_int_value")],
  needs="the option value `-0`", breaks="it is stored as a positive integer",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = -0;").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    assert_eq!((o.negative_int_value, o.positive_int_value), (Some(0), None));
}
'''),
dict(id="c06-large-float", property="C06", edits=[(L, "                if value.0.fract() == 0.0 {\n                    write!(f, \"{:.1}\", value.0)", "                if value.0.fract() == 0.0 && value.0.abs() < 1e15 {\n                    write!(f, \"{:.1}\", value.0)")],
  needs="a whole floating literal of at least 1e15 inside an aggregate option value", breaks="it is stored as an integer token",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = { x: 1e15 };").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    let v = o.aggregate_value().rsplit(' ').next().unwrap().to_owned();
    assert!(v.contains('.') || v.contains('e'), "{}", v);
    assert_eq!(v.parse::<f64>().unwrap(), 1e15);
}
'''),
dict(id="c07-bytes-octal", property="C07", edits=[(A, 'write!(f, "\\\\{:03o}", ch)?;', 'write!(f, "\\\\{:o}", ch)?;')],
  needs="a bytes default with a control byte below 0100 followed by an octal digit", breaks="the stored default unescapes to other bytes",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional bytes a = 1 [default = '\\001\\x31']; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value(), "\\0011");
}
'''),
dict(id="c07-float-int", property="C07", edits=[(A, "                    Some(int.value as f64)\n", "                    Some(int.value as i64 as f64)\n")],
  needs="a float or double default written as an integer of at least 2^63", breaks="the stored default is negative",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional double a = 1 [default = 9223372036854775808]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value().parse::<f64>().unwrap(), 9223372036854775808.0);
}
'''),
dict(id="c08-message-set-first", property="C08", edits=[(G, "            .options\n            .iter()\n            .find(|o| o.body.has_name(\"message_set_wire_format\"))", "            .options\n            .first()\n            .filter(|o| o.body.has_name(\"message_set_wire_format\"))")],
  needs="message_set_wire_format set by an option that is not the first of its message, and a range to max", breaks="`max` is taken as 536870911",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { option deprecated = true; option message_set_wire_format = true; extensions 4 to max; }").unwrap();
    assert_eq!(f.message_type[0].extension_range[0].end, Some(2147483647));
}
'''),
dict(id="c08-extension-options", property="C08", edits=[(G, "        for extensions in ast.extensions {", "        for mut extensions in ast.extensions {"), (G, "                    extensions.options.clone(),", "                    extensions.options.take(),")],
  needs="an extensions statement with several ranges and options", breaks="only the first range gets the options",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { extensions 1 to 2, 4 to 5 [foo = 1]; }").unwrap();
    assert!(f.message_type[0].extension_range[1].options.is_some());
}
'''),
dict(id="c09-concat-lossy", property="C09", edits=[(P, "            result.value.extend(value.as_ref());", "            result\n                .value\n                .extend_from_slice(std::string::String::from_utf8_lossy(&value).as_bytes());")],
  needs="adjacent string literals of which a later one holds bytes that are not valid UTF-8", breaks="those bytes are replaced",
  demo=PRE+r"""
fn main() {
    let f = parse("a.proto", "option a = 'x' '\\xff';").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].string_value(), b"x\xff");
}
"""),
dict(id="c10-minus-comment", property="C10", edits=[(P, "                self.bump();\n                (true, Some(span))\n            }\n            _ => (false, None),\n        };\n\n        match self.peek_skip_comments()? {", "                self.bump();\n                (true, Some(span))\n            }\n            _ => (false, None),\n        };\n\n        match self.peek_comments()? {")],
  needs="a comment or line break between the minus and the digits of an enum number", breaks="the file is rejected",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "enum E { A = -1; }").is_ok());
    assert!(parse("a.proto", "enum E { A = - /* x */ 1; }").is_ok());
}
'''),
dict(id="c11-public-index", property="C11", edits=[(G, "                            tag::file::PUBLIC_DEPENDENCY,\n                            index_to_i32(public_dependency.len()),", "                            tag::file::PUBLIC_DEPENDENCY,\n                            index,")],
  needs="a public import after an import that is not public", breaks="the location of the `public` keyword has the wrong path",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "import 'b.proto'; import public 'c.proto';").unwrap();
    assert!(f.source_code_info.unwrap().location.iter().any(|l| l.path == [10, 0] && l.span == [0, 25, 31]));
}
'''),
dict(id="c11-file-span", property="C11", edits=[(P, "                    file_span = join_span(file_span, statement.span());\n                    match statement {", "                    if !matches!(statement, Statement::Empty(_)) {\n                        file_span = join_span(file_span, statement.span());\n                    }\n                    match statement {")],
  needs="a file that ends in an empty statement", breaks="the file's span stops before it",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M {};").unwrap();
    assert_eq!(f.source_code_info.unwrap().location[0].span, [0, 0, 13]);
}
'''),
dict(id="c12-line-flag", property="C12", edits=[(CM, "            self.leading_detached.extend(self.leading.take());\n        }\n        self.is_line_comment = false;", "            self.leading_detached.extend(self.leading.take());\n            return;\n        }\n        self.is_line_comment = false;")],
  needs="a detached line comment, then a block comment directly followed by a line comment", breaks="the line comment is appended to the block comment instead of detaching it",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "\n\n// a\n\n/* b */\n// c\nmessage M {}").unwrap();
    let i = f.source_code_info.unwrap();
    let l = i.location.iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_comments(), " c\n");
    assert_eq!(l.leading_detached_comments, [" a\n", " b "]);
}
'''),
dict(id="c13-surrogate", property="C13", edits=[(L, "        char::from_u32(value)\n", "        match value {\n            0xd800..=0xdfff => Some(char::REPLACEMENT_CHARACTER),\n            _ => char::from_u32(value),\n        }\n")],
  needs="a unicode escape naming a surrogate", breaks="it is silently replaced instead of rejected",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = '\\ud83d';").is_err());
}
'''),
dict(id="c13-octal-wrap", property="C13", edits=[(L, "        u32::from_str_radix(&lex.slice()[1..], 8)\n            .expect(\"expected valid oct escape\")\n            .try_into()\n            .map_err(drop)", "        let value =\n            u32::from_str_radix(&lex.slice()[1..], 8).expect(\"expected valid oct escape\");\n        // Like the conversion to an unsigned char in C.\n        Ok(value as u8)")],
  needs="an octal escape above \\377", breaks="it wraps around instead of being rejected",
  demo=PRE+r"""
fn main() {
    assert!(parse("a.proto", "option a = '\\377';").is_ok());
    assert!(parse("a.proto", "option a = '\\400';").is_err());
}
"""),
dict(id="c14-trailing-comma", property="C14", edits=[(P, "                Some((Token::Comma, _)) => {\n                    self.bump();\n                    options.push(self.parse_option_body()?);\n                }", "                Some((Token::Comma, _)) => {\n                    self.bump();\n                    if let Some((Token::RightBracket, _)) = self.peek_skip_comments()? {\n                        break self.bump();\n                    }\n                    options.push(self.parse_option_body()?);\n                }")],
  needs="an option list with a comma before the closing bracket", breaks="the ungrammatical file is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message M { optional int32 a = 1 [b = 1,]; }").is_err());
}
'''),
dict(id="c15-empty-oneof", property="C15", edits=[(G, "        if oneof.fields.is_empty() {", "        if oneof.fields.is_empty() && options.is_none() {")],
  needs="a oneof with options but no fields", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message M { oneof a { option b = 1; } }").is_err());
}
'''),
dict(id="c16-explicit", property="C16", kind="protox", edits=[("protox/src/compile/mod.rs", "                check_shadow(&name, file_metadata.path(), path)?;\n            }\n            file_metadata.is_import = false;", "                check_shadow(&name, file_metadata.path(), path)?;\n                file_metadata.is_import = false;\n            }")],
  needs="opening, by its import name, a file that was loaded as an import before", breaks="it stays an import and is left out of the set without imports",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B {}")]);
    c.open_file("a.proto").unwrap().open_file("b.proto").unwrap();
    assert!(c.files().all(|f| !f.is_import()));
    assert_eq!(c.file_descriptor_set().file.len(), 2);
}
'''),
dict(id="c17-insert-first", property="C17", kind="protox", edits=[("protox/src/compile/mod.rs", "        let path = self.check_file(file)?;\n        self.files.insert(\n            file_name.to_owned(),\n            FileMetadata {\n                name: file_name.to_owned(),\n                path,\n                is_import: true,\n            },\n        );\n        Ok(())", "        self.files.insert(\n            file_name.to_owned(),\n            FileMetadata {\n                name: file_name.to_owned(),\n                path: file.path().map(ToOwned::to_owned),\n                is_import: true,\n            },\n        );\n        self.check_file(file)?;\n        Ok(())")],
  needs="a failed open whose import does not pass the checks, then opening that import or a file that imports it", breaks="the bad file counts as loaded: the second open succeeds",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import 'b.proto';"), ("b.proto", "message B { optional Missing m = 1; }")]);
    assert!(c.open_file("a.proto").is_err());
    assert!(c.open_file("b.proto").is_err());
}
'''),
dict(id="c18-shadow-loaded", property="C18", kind="protox", edits=[("protox/src/compile/mod.rs", "            if is_resolved {\n                check_shadow(&name, file_metadata.path(), path)?;\n            }\n            file_metadata.is_import = false;", "            file_metadata.is_import = false;")],
  needs="opening a path shadowed by a file that is already loaded", breaks="the shadowed path is accepted although another file was read",
  demo=MEM+r'''
use std::fs;
fn main() {
    fs::create_dir_all("x").unwrap();
    fs::create_dir_all("y").unwrap();
    fs::write("x/a.proto", "message X {}").unwrap();
    fs::write("y/a.proto", "message Y {}").unwrap();
    let mut c = Compiler::new(["x", "y"]).unwrap();
    c.open_file("x/a.proto").unwrap();
    assert!(c.open_file("y/a.proto").is_err());
}
'''),
dict(id="c19-chain-io", property="C19", kind="protox", edits=[("protox/src/file/chain.rs", "                Err(err) if err.is_file_not_found() => continue,", "                Err(err) if err.is_file_not_found() || err.is_io() => continue,")],
  needs="a resolver that fails with an I/O error before one that has the file", breaks="the I/O error is hidden and a later resolver's file is used",
  demo=MEM+r'''
use std::io;
use protox::file::ChainFileResolver;
struct Broken;
impl FileResolver for Broken {
    fn open_file(&self, _: &str) -> Result<File, Error> {
        Err(io::Error::new(io::ErrorKind::Other, "broken").into())
    }
}
fn main() {
    let mut chain = ChainFileResolver::new();
    chain.add(Broken);
    chain.add(Mem([("a.proto", "")].into_iter().collect()));
    assert!(chain.open_file("a.proto").unwrap_err().is_io());
}
'''),
dict(id="c20-extension-options", property="C20", kind="protox", edits=[("protox/src/compile/mod.rs", "                let file_buf = f.encode_to_vec();\n\n                let mut file_msg =\n                    DynamicMessage::decode(file_desc.clone(), file_buf.as_slice()).unwrap();", "                let mut file_msg = DynamicMessage::new(file_desc.clone());\n                file_msg.transcode_from(f.file_descriptor_proto()).unwrap();")],
  needs="a file with custom options, encoded without both flags set", breaks="the encoded set lacks the extension options",
  demo=MEM+r'''
fn main() {
    let files = [("a.proto", "import 'google/protobuf/descriptor.proto'; option (x) = 'needle'; extend google.protobuf.FileOptions { optional string x = 50000; }")];
    for (imports, info) in [(true, true), (true, false), (false, true), (false, false)] {
        let mut chain = protox::file::ChainFileResolver::new();
        chain.add(Mem(files.iter().copied().collect()));
        chain.add(protox::file::GoogleFileResolver::new());
        let mut c = Compiler::with_file_resolver(chain);
        c.include_imports(imports).include_source_info(info).open_file("a.proto").unwrap();
        let bytes = c.encode_file_descriptor_set();
        assert!(bytes.windows(6).any(|w| w == b"needle"), "{} {}", imports, info);
    }
}
'''),
dict(id="c22-utf8-class", property="C22", kind="protox", edits=[("protox/src/error.rs", "                | ErrorKind::FileTooLarge { .. }\n                | ErrorKind::FileInvalidUtf8 { .. }\n        )\n    }\n\n    /// Returns true if this error is caused by an IO", "                | ErrorKind::FileTooLarge { .. }\n        )\n    }\n\n    /// Returns true if this error is caused by an IO")],
  needs="a file that is not valid UTF-8", breaks="its error is not classified as a parse error",
  demo=MEM+r'''
fn main() {
    std::fs::write("a.proto", b"message A { }\n// \xff\n").unwrap();
    let err = Compiler::new(["."]).unwrap().open_file("a.proto").map(|_| ()).unwrap_err();
    assert!(err.is_parse());
}
'''),
dict(id="c23-partial-output", property="C23", kind="cli", edits=[("protox/src/main.rs", "        compiler.open_file(file)?;\n    }\n    if let Some(output) = args.output {\n        fs::write(output, compiler.encode_file_descriptor_set())\n            .map_err(|err| miette::miette!(err))?;\n    }", "        compiler.open_file(file)?;\n        if let Some(output) = &args.output {\n            fs::write(output, compiler.encode_file_descriptor_set())\n                .map_err(|err| miette::miette!(err))?;\n        }\n    }")],
  needs="several files of which a later one fails to compile", breaks="the command fails but leaves an output file",
  run='''
echo 'message A {}' >a.proto
echo 'message B {' >b.proto
"$protox" -I . -o good.bin a.proto && [ -s good.bin ] || exit 1
if "$protox" -I . -o bad.bin a.proto b.proto 2>/dev/null; then exit 1; fi
[ ! -e bad.bin ]
'''),
dict(id="c24-chunk", property="C24", kind="protox", edits=[("protox/src/file/descriptor_set.rs", "                set.push(FileDescriptor::decode((&mut buf).take(len))?);", "                let chunk = buf.chunk();\n                set.push(FileDescriptor::decode(&chunk[..len.min(chunk.len())])?);\n                buf.advance(len);")],
  needs="a descriptor set read from a buffer that is not contiguous, with a file across two chunks", breaks="the file is cut at the end of the chunk",
  demo=MEM+r'''
use bytes::Buf;
use protox::file::DescriptorSetFileResolver;
use prost::Message;
fn main() {
    let mut c = compiler(&[("a.proto", "message A {} message B {} message C {}")]);
    c.open_file("a.proto").unwrap();
    let bytes = c.encode_file_descriptor_set();
    let want = prost_types::FileDescriptorSet::decode(bytes.as_slice()).unwrap();
    for i in 0..bytes.len() {
        let r = DescriptorSetFileResolver::decode(bytes[..i].chain(&bytes[i..])).unwrap();
        assert_eq!(r.open_file("a.proto").unwrap().file_descriptor_proto(), &want.file[0]);
    }
}
'''),
]
