"""Round five: results that depend on more than the inputs."""
P = "protox-parse/src/"
X = "protox/src/"
PRE = "\nuse protox_parse::parse;\n"
BUGS = [
dict(id="c25-last-result", property="C25", edits=[(P + "lib.rs", '''    let ast = parse::parse_file(source)
        .map_err(|errors| ParseError::new(errors, name, source.to_owned()))?;

    generate::generate_file(ast, name, source)
        .map_err(|errors| ParseError::new(errors, name, source.to_owned()))
}''', '''    thread_local! {
        /// The most recently parsed file, as files are often parsed again unchanged.
        static LAST: std::cell::RefCell<std::option::Option<(Vec<u8>, FileDescriptorProto)>> =
            const { std::cell::RefCell::new(None) };
    }

    let bytes = source.as_bytes();
    let key = [
        &bytes[..bytes.len().min(64)],
        &bytes[bytes.len().saturating_sub(64)..],
        &bytes.len().to_le_bytes(),
    ]
    .concat();
    let cached = LAST.with(|last| match &*last.borrow() {
        Some((last, file)) if *last == key && file.name() == name => Some(file.clone()),
        _ => None,
    });
    if let Some(file) = cached {
        return Ok(file);
    }

    let ast = parse::parse_file(source)
        .map_err(|errors| ParseError::new(errors, name, source.to_owned()))?;

    let file = generate::generate_file(ast, name, source)
        .map_err(|errors| ParseError::new(errors, name, source.to_owned()))?;
    LAST.with(|last| *last.borrow_mut() = Some((key, file.clone())));
    Ok(file)
}''')], needs="a file parsed on the same thread right after another one of the same name and length that differs from it in the middle only", breaks="the descriptor of the earlier file is returned",
  demo=PRE + r'''
fn main() {
    let pad = " ".repeat(80);
    parse("a.proto", &format!("{pad}message A {{}}{pad}")).unwrap();
    let f = parse("a.proto", &format!("{pad}message B {{}}{pad}")).unwrap();
    assert_eq!(f.message_type[0].name(), "B");
}
'''),
dict(id="c25-global-stack", property="C25", edits=[
 (X + "compile/mod.rs", '''        let file = self.resolver.open_file(file_name)?;

        import_stack.push(file_name.to_owned());
''', '''        let file = self.resolver.open_file(file_name)?;
        let _loading = Loading::start(file_name)?;

        import_stack.push(file_name.to_owned());
'''),
 (X + "compile/mod.rs", '''impl fmt::Debug for Compiler {''', '''/// Files whose imports are being added.
static LOADING: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

struct Loading(String);

impl Loading {
    fn start(name: &str) -> Result<Self, Error> {
        let mut loading = LOADING.lock().unwrap();
        if loading.iter().any(|n| n == name) {
            return Err(Error::from_kind(ErrorKind::CircularImport {
                name: name.to_owned(),
                cycle: loading.join(" -> "),
            }));
        }
        loading.push(name.to_owned());
        Ok(Loading(name.to_owned()))
    }
}

impl Drop for Loading {
    fn drop(&mut self) {
        LOADING.lock().unwrap().retain(|n| *n != self.0);
    }
}

impl fmt::Debug for Compiler {''')], needs="two compilers on different threads loading imports of the same name at the same time", breaks="one of them reports an import cycle",
  demo=r'''
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};

struct Files;
impl FileResolver for Files {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "a.proto" => File::from_source(name, "import 'b.proto';"),
            "b.proto" => File::from_source(name, &"message M { } ".repeat(1).replace("M", "B").repeat(1)),
            _ => Err(Error::file_not_found(name)),
        }
    }
}

fn main() {
    let threads: Vec<_> = (0..4)
        .map(|_| {
            std::thread::spawn(|| {
                for _ in 0..20000 {
                    Compiler::with_file_resolver(Files).open_file("a.proto").unwrap();
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}
'''),
dict(id="c25-file-cache", property="C25", edits=[
 (X + "file/mod.rs", '''        let mut buf = String::with_capacity(metadata.len() as usize);
        file.take(MAX_FILE_LEN)
            .read_to_string(&mut buf)
            .map_err(map_io_err)?;
''', '''        /// The text of files read before, by path and size.
        static READ: std::sync::Mutex<Vec<(PathBuf, String)>> = std::sync::Mutex::new(Vec::new());

        let mut read = READ.lock().unwrap();
        let mut buf = String::with_capacity(metadata.len() as usize);
        match read.iter().find(|(p, _)| p == path) {
            Some((_, text)) if text.len() as u64 == metadata.len() => buf.push_str(text),
            _ => {
                file.take(MAX_FILE_LEN)
                    .read_to_string(&mut buf)
                    .map_err(map_io_err)?;
                read.retain(|(p, _)| p != path);
                if read.len() >= 64 {
                    read.remove(0);
                }
                read.push((path.to_owned(), buf.clone()));
            }
        }
        drop(read);
''')], needs="a file replaced by another of the same size between two compilations in one process", breaks="the old text is used",
  demo=r'''
use protox::file::File;
use std::path::Path;

fn main() {
    for m in ["A", "B"] {
        std::fs::write("a.proto", format!("message {m} {{}}")).unwrap();
        let f = File::open("a.proto", Path::new("a.proto")).unwrap();
        assert_eq!(f.file_descriptor_proto().message_type[0].name(), m);
    }
}
'''),
]
for b in BUGS:
    if "protox::" in b["demo"]:
        b["kind"] = "protox"
