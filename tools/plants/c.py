"""Third round of planted bugs."""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("plants_b", pathlib.Path(__file__).with_name("b.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
G, P, L, C, A, CM, ER, LN, CO, PRE, MEM = _m.G, _m.P, _m.L, _m.C, _m.A, _m.CM, _m.ER, _m.LN, _m.CO, _m.PRE, _m.MEM
F = "protox/src/file/mod.rs"
INC = "protox/src/file/include.rs"
CH = "protox/src/file/chain.rs"
DS = "protox/src/file/descriptor_set.rs"
PER = "protox/src/error.rs"
MAIN = "protox/src/main.rs"
BUGS = [
dict(id="c01-skip-hang", property="C01", edits=[(P, "                Err(()) => {\n                    self.peek = None;\n                }", "                Err(()) => {\n                    self.comments.reset();\n                    if self.lexer.remainder().is_empty() {\n                        self.peek = None;\n                    }\n                }")],
  needs="an invalid token followed by more text while recovering from a syntax error", breaks="parsing never ends",
  demo=PRE+r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        tx.send(parse("a.proto", "foo @ bar; message M {}").is_err()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).unwrap());
}
'''),
dict(id="c02-ident-span", property="C02", edits=[(L, "        let mut end = span.end + 1;\n        while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {\n            end += 1;\n        }", "        let end = span.end\n            + lex\n                .remainder()\n                .chars()\n                .take_while(|ch| ch.is_alphabetic() || *ch == '_')\n                .count();")],
  needs="digits glued to a word with letters of several bytes", breaks="the error's span ends inside a character",
  demo=PRE+r'''
fn main() {
    let source = "enum E { A = 1a\u{e9}; }";
    let span = parse("a.proto", source).unwrap_err().span().unwrap();
    assert!(source.get(span).is_some());
}
'''),
dict(id="c02-line-start", property="C02", edits=[(ER, "            if let Ok(span_contents) = self.source_code.read_span(&span.into(), 0, 0) {\n                if let Some(file_name) = span_contents.name() {\n                    write!(f, \"{}:\", file_name)?;\n                }\n\n                write!(\n                    f,\n                    \"{}:{}: \",\n                    span_contents.line() + 1,\n                    span_contents.column() + 1\n                )?;\n            }", "            if let Ok(span_contents) = self.source_code.read_span(&span.clone().into(), 0, 0) {\n                if let Some(file_name) = span_contents.name() {\n                    write!(f, \"{}:\", file_name)?;\n                }\n\n                let before = &self.source_code.inner()[..span.start];\n                write!(\n                    f,\n                    \"{}:{}: \",\n                    before.lines().count().max(1),\n                    span_contents.column() + 1\n                )?;\n            }")],
  needs="an error at the start of a line other than the first", breaks="the debug text names the line before",
  demo=PRE+r'''
fn main() {
    let err = parse("a.proto", "message A {}\nfoo").unwrap_err();
    assert!(format!("{:?}", err).starts_with("a.proto:2:1: "));
}
'''),
dict(id="c03-stream-both", property="C03", edits=[(G, "        let server_streaming = if ast.server_streaming.is_some() {", "        let server_streaming = if ast.server_streaming.is_some()\n            && (client_streaming.is_none() || ast.input_ty != ast.output_ty)\n        {")],
  needs="a method streaming one and the same type both ways... spelled at the same place", breaks="it is not server streaming",
  demo=PRE+r'''
fn main() {}
''', skip=True),
dict(id="c04-group-lower", property="C04", edits=[(G, "name = ast.name.value.to_ascii_lowercase();", "name = ast.name.value[..1].to_ascii_lowercase() + &ast.name.value[1..];")],
  needs="a group whose name has a second capital letter", breaks="the field's name is not in lower case",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional group FooBar = 1 {} }").unwrap();
    assert_eq!(f.message_type[0].field[0].name(), "foobar");
}
'''),
dict(id="c05-large-positive", property="C05", edits=[(G, "                } else {\n                    UninterpretedOption {\n                        name,\n                        positive_int_value: Some(int.value),\n                        ..Default::default()\n                    }\n                }", "                } else if int.value > i64::MAX as u64 {\n                    UninterpretedOption {\n                        name,\n                        double_value: Some(int.value as f64),\n                        ..Default::default()\n                    }\n                } else {\n                    UninterpretedOption {\n                        name,\n                        positive_int_value: Some(int.value),\n                        ..Default::default()\n                    }\n                }")],
  needs="an integer above 2^63-1 as option value", breaks="it is stored as a double",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = 9223372036854775808;").unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].positive_int_value, Some(1 << 63));
}
'''),
dict(id="c06-escape-debug", property="C06", edits=[(L, "                for &ch in bytes.as_ref() {\n                    write!(f, \"{}\", ascii::escape_default(ch))?;\n                }", "                match std::str::from_utf8(bytes) {\n                    Ok(s) => write!(f, \"{}\", s.escape_debug())?,\n                    Err(_) => {\n                        for &ch in bytes.as_ref() {\n                            write!(f, \"{}\", ascii::escape_default(ch))?;\n                        }\n                    }\n                }")],
  needs="a control character in a string of an aggregate", breaks="it is stored as an escape text format does not have",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "option a = { x: \"\\001\" };").unwrap();
    let o = &f.options.unwrap().uninterpreted_option[0];
    assert!(!o.aggregate_value().contains("\\u{"));
}
'''),
dict(id="c07-float-single", property="C07", edits=[(G, "                    let mut string = float.to_string();", "                    let mut string = match ty {\n                        Some(Type::Float) => (float as f32).to_string(),\n                        _ => float.to_string(),\n                    };")],
  needs="a float field's default with more digits than single precision holds", breaks="the stored default is another number",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { optional float a = 1 [default = 16777217]; }").unwrap();
    assert_eq!(f.message_type[0].field[0].default_value().parse::<f64>().unwrap(), 16777217.0);
}
'''),
dict(id="c08-range-options", property="C08", edits=[(G, "            for range in extensions.ranges {\n                self.path.push(index_to_i32(extension_range.len()));\n                extension_range.push(self.generate_message_extension_range(\n                    range,\n                    is_message_set,\n                    extensions.options.clone(),\n                ));", "            let last = extensions.ranges.len() - 1;\n            for (i, range) in extensions.ranges.into_iter().enumerate() {\n                self.path.push(index_to_i32(extension_range.len()));\n                extension_range.push(self.generate_message_extension_range(\n                    range,\n                    is_message_set,\n                    extensions.options.clone().filter(|_| i == 0 || i == last),\n                ));")],
  needs="an extensions statement with options and three or more ranges", breaks="only the first and last range have the options",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "message M { extensions 1, 3, 5 [a = 1]; }").unwrap();
    assert!(f.message_type[0].extension_range.iter().all(|r| r.options.is_some()));
}
'''),
dict(id="c09-upper-x", property="C09", edits=[(L, r'''#[regex(r#"\\[xX](?&hex)(?&hex)?"#, hex_escape)]''', r'''#[regex(r#"\\x(?&hex)(?&hex)?"#, hex_escape)]''')],
  needs="a hex escape with a capital X", breaks="the string is rejected",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", r#"option a = "\X41";"#).unwrap();
    assert_eq!(f.options.unwrap().uninterpreted_option[0].string_value(), b"A");
}
'''),
dict(id="c10-hex-x", property="C10", edits=[(L, '#[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]', '#[regex("0[xX][0-9a-f]+|0x[0-9A-F]+", |lex| int(lex, 16, 2))]')],
  needs="a hexadecimal integer mixing the case of its digits", breaks="it is rejected",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = 0xaB;").is_ok());
}
'''),
dict(id="c11-string-span", property="C11", edits=[(P, "            result.span = join_span(result.span.clone(), span);", "            if span.end - result.span.end > 1 {\n                result.span = join_span(result.span.clone(), span);\n            }")],
  needs="string", breaks="-", skip=True, demo=""),
dict(id="c12-detached-order", property="C12", edits=[(CM, "            self.leading_detached.extend(self.leading.take());", "            match (self.leading.take(), self.is_line_comment) {\n                (Some(comment), true) if self.leading_detached.last() == Some(&comment) => (),\n                (comment, _) => self.leading_detached.extend(comment),\n            }")],
  needs="two equal detached comments in a row", breaks="one of them is lost",
  demo=PRE+r'''
fn main() {
    let f = parse("a.proto", "import \"a\";\n\n// x\n\n// x\n\nmessage M {}").unwrap();
    let info = f.source_code_info.unwrap();
    let l = info.location.iter().find(|l| l.path == [4, 0]).unwrap();
    assert_eq!(l.leading_detached_comments.len(), 2);
}
'''),
dict(id="c14-double-minus", property="C14", edits=[(P, "            Some((Token::Minus, start)) => {\n                self.bump();\n                match self.peek_skip_comments()? {\n                    Some((Token::Ident(_), end))", "            Some((Token::Minus, start)) => {\n                self.bump();\n                if let Some((Token::Plus, _)) = self.peek_skip_comments()? {\n                    self.bump();\n                }\n                match self.peek_skip_comments()? {\n                    Some((Token::Ident(_), end))")],
  needs="an option value with `-+`", breaks="the ungrammatical value is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "option a = -1;").is_ok());
    assert!(parse("a.proto", "option a = -+1;").is_err());
}
'''),
dict(id="c14-reserved-names", property="C14", edits=[(P, "                Some((Token::Comma, _)) => {\n                    self.bump();\n                    names.push(self.parse_ident_string()?);\n                }", "                Some((Token::Comma, _)) => {\n                    self.bump();\n                    if let Some((Token::Semicolon, _)) = self.peek_skip_comments()? {\n                        break self.bump();\n                    }\n                    names.push(self.parse_ident_string()?);\n                }")],
  needs="a trailing comma after reserved names", breaks="it is accepted",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "message M { reserved \"a\"; }").is_ok());
    assert!(parse("a.proto", "message M { reserved \"a\",; }").is_err());
}
'''),
dict(id="c14-extend-oneof", property="C14", edits=[(P, "                Some((Token::RightBrace, _)) => break self.bump(),\n                Some((Token::Dot | Token::Ident(_), _)) => fields.push(self.parse_field()?),\n                _ => self.unexpected_token(\"a message field, '}' or ';'\")?,", "                Some((Token::RightBrace, _)) => break self.bump(),\n                Some((Token::OPTION, _)) => {\n                    self.parse_option()?;\n                }\n                Some((Token::Dot | Token::Ident(_), _)) => fields.push(self.parse_field()?),\n                _ => self.unexpected_token(\"a message field, '}' or ';'\")?,")],
  needs="an option statement in an extend block", breaks="it is accepted (and dropped)",
  demo=PRE+r'''
fn main() {
    assert!(parse("a.proto", "extend M { optional int32 a = 1; }").is_ok());
    assert!(parse("a.proto", "extend M { option a = 1; optional int32 a = 1; }").is_err());
}
'''),
dict(id="c15-cap", property="C15", edits=[(G, "        Err(ctx.errors)\n", "        ctx.errors.truncate(20);\n        Err(ctx.errors)\n")],
  needs="more than twenty violations in one file", breaks="the rest is not reported",
  demo=r'''
use miette::Diagnostic;
use protox_parse::parse;
fn main() {
    let fields: String = (0..30).map(|i| format!("int32 f{} = {}; ", i, i + 1)).collect();
    let err = parse("a.proto", &format!("message M {{ {} }}", fields)).unwrap_err();
    assert_eq!(1 + err.related().into_iter().flatten().count(), 30);
}
'''),
dict(id="c15-reserved-end", property="C15", edits=[(G, "            ast::ReservedRangeEnd::Int(value) => self.generate_message_number(value),\n            ast::ReservedRangeEnd::Max(_) => Some(if is_message_set {\n                i32::MAX - 1\n            } else {\n                MAX_MESSAGE_FIELD_NUMBER\n            }),\n        };\n\n        descriptor_proto::ReservedRange {", "            ast::ReservedRangeEnd::Int(value) if start.is_none() => value.as_i32(),\n            ast::ReservedRangeEnd::Int(value) => self.generate_message_number(value),\n            ast::ReservedRangeEnd::Max(_) => Some(if is_message_set {\n                i32::MAX - 1\n            } else {\n                MAX_MESSAGE_FIELD_NUMBER\n            }),\n        };\n\n        descriptor_proto::ReservedRange {")],
  needs="a reserved range with both bounds out of range", breaks="only the first is reported",
  demo=r'''
use miette::Diagnostic;
use protox_parse::parse;
fn main() {
    let err = parse("a.proto", "message M { reserved 0 to 536870912; }").unwrap_err();
    assert_eq!(1 + err.related().into_iter().flatten().count(), 2);
}
'''),
dict(id="c16-failed-open", property="C17", edits=[(CO, "            if is_resolved {\n                check_shadow(&name, file_metadata.path(), path)?;\n            }\n            file_metadata.is_import = false;\n            return Ok(self);", "            file_metadata.is_import = false;\n            if is_resolved {\n                check_shadow(&name, file_metadata.path(), path)?;\n            }\n            return Ok(self);")],
  needs="a failed open (shadowed path) of a file that is already loaded as an import", breaks="the import becomes an explicit file",
  demo=r'''
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("a").unwrap();
    std::fs::create_dir_all("b").unwrap();
    std::fs::write("a/x.proto", "").unwrap();
    std::fs::write("b/x.proto", "").unwrap();
    std::fs::write("a/y.proto", "import \"x.proto\";").unwrap();
    let mut c = Compiler::new(["a", "b"]).unwrap();
    c.open_file("a/y.proto").unwrap();
    assert!(c.open_file("b/x.proto").is_err());
    assert_eq!(c.file_descriptor_set().file.len(), 1);
}
'''),
dict(id="c17-weak-missing", property="C17", edits=[(CO, "            self.add_import(import, import_stack)\n                .map_err(|e| e.into_import_error(&file, i))?;", "            match self.add_import(import, import_stack) {\n                Err(e)\n                    if e.is_file_not_found()\n                        && file.descriptor.weak_dependency.contains(&(i as i32)) => {}\n                result => result.map_err(|e| e.into_import_error(&file, i))?,\n            }")],
  needs="a weak import of a missing file in an imported file", breaks="the failure is no longer a missing import at the import statement",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import \"b.proto\";"), ("b.proto", "import weak \"c.proto\";")]);
    let err = c.open_file("a.proto").unwrap_err();
    assert!(err.is_file_not_found());
    assert_eq!(err.file(), Some("b.proto"));
}
'''),
dict(id="c17-adjacent-dup", property="C17", edits=[(CO, "        import_stack.push(file_name.to_owned());\n        let mut already_imported = HashSet::new();\n        for (i, import) in file.descriptor.dependency.iter().enumerate() {\n            if !already_imported.insert(import) {", "        import_stack.push(file_name.to_owned());\n        for (i, import) in file.descriptor.dependency.iter().enumerate() {\n            if i > 0 && file.descriptor.dependency[i - 1] == *import {")],
  needs="an imported file that lists a file twice with another import in between", breaks="the duplicate is accepted or reported as another error",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[
        ("a.proto", "import \"b.proto\";"),
        ("b.proto", "import \"c.proto\"; import \"d.proto\"; import \"c.proto\";"),
        ("c.proto", ""),
        ("d.proto", ""),
    ]);
    let err = c.open_file("a.proto").unwrap_err();
    assert!(format!("{:?}", err).contains("listed twice"));
}
'''),
dict(id="c18-curdir", property="C18", edits=[(INC, "            _ => return None,\n        }\n    }\n\n    if name.is_empty() {", "            std::path::Component::CurDir => (),\n            _ => return None,\n        }\n    }\n\n    if name.is_empty() {")],
  needs="a path starting with `./` outside the include directories whose rest is the name of an included file", breaks="the included file is compiled although another was named",
  demo=r'''
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("a").unwrap();
    std::fs::write("a/x.proto", "").unwrap();
    let mut c = Compiler::new(["a"]).unwrap();
    assert!(c.open_file("x.proto").is_ok());
    assert!(Compiler::new(["a"]).unwrap().open_file("./x.proto").is_err());
}
'''),
dict(id="c18-case", property="C18", edits=[(INC, "#[cfg(not(windows))]\nfn path_component_eq(l: &path::Component, r: &path::Component) -> bool {\n    l == r\n}", "#[cfg(not(windows))]\nfn path_component_eq(l: &path::Component, r: &path::Component) -> bool {\n    l.as_os_str().eq_ignore_ascii_case(r.as_os_str())\n}")],
  needs="directories whose names differ in case only", breaks="a path below one is taken to lie below the other",
  demo=r'''
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("Inc").unwrap();
    std::fs::create_dir_all("inc").unwrap();
    std::fs::write("Inc/x.proto", "message Upper {}").unwrap();
    std::fs::write("inc/x.proto", "message Lower {}").unwrap();
    let mut c = Compiler::new(["Inc"]).unwrap();
    assert!(c.open_file("inc/x.proto").is_err());
}
'''),
dict(id="c18-lossy", property="C18", edits=[(INC, "                if let Some(component) = component.to_str() {\n                    if !name.is_empty() {\n                        name.push('/');\n                    }\n                    name.push_str(component);\n                } else {\n                    return None;\n                }", "                if !name.is_empty() {\n                    name.push('/');\n                }\n                name.push_str(&component.to_string_lossy());")],
  needs="a path that is not UTF-8 while a file with the replaced name exists", breaks="another file is compiled",
  demo=r'''
use std::{ffi::OsStr, os::unix::ffi::OsStrExt, path::Path};
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("a").unwrap();
    std::fs::write("a/\u{fffd}.proto", "").unwrap();
    let mut c = Compiler::new(["a"]).unwrap();
    assert!(c.open_file(Path::new(OsStr::from_bytes(b"\xff.proto"))).is_err());
}
'''),
dict(id="c19-not-found-name", property="C19", edits=[(CH, "                Err(err) if err.is_file_not_found() => continue,", "                Err(err) if err.is_file_not_found() && err.file() == Some(name) => continue,")],
  needs="a resolver that reports a file as not found under another name", breaks="the chain stops there",
  demo=r'''
use protox::{file::{ChainFileResolver, File, FileResolver}, Error};
struct Prefix;
impl FileResolver for Prefix {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        Err(Error::file_not_found(&format!("dir/{}", name)))
    }
}
struct Any;
impl FileResolver for Any {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        File::from_source(name, "")
    }
}
fn main() {
    let mut chain = ChainFileResolver::new();
    chain.add(Prefix);
    chain.add(Any);
    assert!(chain.open_file("a.proto").is_ok());
}
'''),
dict(id="c19-empty-file", property="C19", edits=[(CH, "                Ok(file) => return Ok(file),", "                Ok(file) if file.source() != Some(\"\") => return Ok(file),\n                Ok(_) => continue,")],
  needs="an empty file in an early include directory", breaks="it is passed over",
  demo=r'''
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("a").unwrap();
    std::fs::create_dir_all("b").unwrap();
    std::fs::write("a/x.proto", "").unwrap();
    std::fs::write("b/x.proto", "message M {}").unwrap();
    let mut c = Compiler::new(["a", "b"]).unwrap();
    c.open_file("x.proto").unwrap();
    assert!(c.file_descriptor_set().file[0].message_type.is_empty());
}
'''),
dict(id="c20-import-info", property="C20", edits=[(CO, "                if self.include_source_info {\n                    f.file_descriptor_proto().clone()", "                if self.include_source_info\n                    && !(self.include_imports && self.files[f.name()].is_import)\n                {\n                    f.file_descriptor_proto().clone()")],
  needs="imports and source info requested together", breaks="the in-memory set lacks the source info of imports",
  demo=MEM+r'''
fn main() {
    let mut c = compiler(&[("a.proto", "import \"b.proto\";"), ("b.proto", "message M {}")]);
    c.open_file("a.proto").unwrap();
    c.include_imports(true);
    c.include_source_info(true);
    assert!(c.file_descriptor_set().file.iter().all(|f| f.source_code_info.is_some()));
}
'''),
dict(id="c22-custom-io", property="C22", edits=[(PER, "            ErrorKind::Custom(err) if err.downcast_ref::<io::Error>().is_some() => true,\n            _ => false,", "            ErrorKind::Custom(err) => err\n                .downcast_ref::<io::Error>()\n                .map_or(false, |err| err.raw_os_error().is_some()),\n            _ => false,")],
  needs="a resolver that fails with an I/O error that does not come from the operating system", breaks="the error is not classified as an I/O error",
  demo=r'''
fn main() {
    let err = protox::Error::from(std::io::Error::new(std::io::ErrorKind::Other, "x"));
    assert!(err.is_io());
}
'''),
dict(id="c22-cause", property="C22", edits=[(PER, "            ErrorKind::OpenFile { err, .. } => write!(f, \"{}: {}\", self, err),\n            ErrorKind::FileTooLarge", "            ErrorKind::OpenFile { err, .. } if err.raw_os_error().is_none() => {\n                write!(f, \"{}: {}\", self, err)\n            }\n            ErrorKind::OpenFile { .. } => write!(f, \"{}\", self),\n            ErrorKind::FileTooLarge")],
  needs="a file that the operating system fails to open", breaks="the debug text lacks the cause",
  demo=r'''
use protox::Compiler;
fn main() {
    std::fs::create_dir_all("a/x.proto").unwrap();
    let err = Compiler::new(["a"]).unwrap().open_file("x.proto").unwrap_err();
    assert!(err.is_io());
    assert!(format!("{:?}", err).contains("directory"));
}
'''),
dict(id="c23-no-output", property="C23", edits=[(MAIN, "    for file in args.files {\n        compiler.open_file(file)?;\n    }\n    if let Some(output) = args.output {", "    if let Some(output) = args.output {\n        for file in args.files {\n            compiler.open_file(file)?;\n        }")],
  needs="an invalid file compiled without an output path", breaks="the command succeeds",
  run='''
echo invalid > a.proto
! "$protox" a.proto
'''),
dict(id="c24-wire-type", property="C24", edits=[(DS, "            if key == FILE_TAG {\n                check_wire_type(WireType::LengthDelimited, wire_type)?;\n", "            if key == FILE_TAG && wire_type == WireType::LengthDelimited {\n"), (DS, "encoding::{check_wire_type, decode_key,", "encoding::{decode_key,")],
  needs="field 1 with another wire type", breaks="the malformed set is accepted",
  demo=r'''
use protox::file::DescriptorSetFileResolver;
fn main() {
    assert!(DescriptorSetFileResolver::decode(&[8u8, 0][..]).is_err());
}
'''),
dict(id="c24-empty-file", property="C24", edits=[(DS, "                set.push(FileDescriptor::decode((&mut buf).take(len))?);", "                if len > 0 {\n                    set.push(FileDescriptor::decode((&mut buf).take(len))?);\n                }")],
  needs="a set with an empty file descriptor", breaks="the file without a name is not found",
  demo=r'''
use protox::file::{DescriptorSetFileResolver, FileResolver};
fn main() {
    let r = DescriptorSetFileResolver::decode(&[10u8, 0][..]).unwrap();
    assert!(r.open_file("").is_ok());
}
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
for b in BUGS:
    if b["id"] == "c23-no-output":
        b["kind"] = "cli"
    elif "use protox::" in b.get("demo", "") or "protox::Error" in b.get("demo", ""):
        b["kind"] = "protox"
