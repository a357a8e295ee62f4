#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = "protox-parse/src/"
X = "protox/src/"
props = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None}})

p("C01", "Parsing is total",
  "For every UTF-8 source text and file name, parsing returns either a descriptor or an error value. It never panics, aborts the process (including by exhausting the stack on deep nesting) or runs forever, and formatting the returned error never panics either.",
  ["inputs"], "all strings as source (random unicode, token soup, mutated valid files, truncations, deep nesting, long runs), all file names",
  "Tests parse a few dozen hand-written sources; one lexer proptest counts tokens of short random strings and never reaches the parser.",
  [P+"lib.rs", P+"lex/mod.rs", P+"parse/mod.rs", P+"parse/comments.rs", P+"generate/mod.rs", P+"error.rs"],
  [("error recovery skip_until", P+"parse/mod.rs"), ("span arithmetic in lexer callbacks", P+"lex/mod.rs"), ("index_to_i32 / unreachable!() sites", P+"generate/mod.rs")],
  observe=["protox_parse::parse", "Display/Debug of ParseError", "miette labels of ParseError"])

p("C02", "Parse errors point at real, consistent source locations",
  "Every parse error names the file it was given; every span or label it carries (primary and related) is a well-formed range inside the source on character boundaries; and its debug text starts with `file:line:col: ` for exactly the line and column at which the primary span starts, followed by its message. Parsing the same input again gives the same errors.",
  ["inputs"], "all rejected inputs: mutated and truncated valid files, token soup, random unicode, multi-byte characters and CRLF before the error",
  "Tests assert spans of a few dozen ASCII sources; no test puts multi-byte text, CRLF or several errors before the reported location.",
  [P+"error.rs", P+"lex/mod.rs", P+"parse/mod.rs", P+"generate/mod.rs"],
  [("ParseError::span/file/Debug", P+"error.rs"), ("string()/int()/block_comment() span offsets", P+"lex/mod.rs")],
  observe=["ParseError::file", "ParseError::span", "Debug for ParseError", "miette::Diagnostic labels/related"])

p("C03", "Descriptors contain exactly what the source declares",
  "For every valid source file the descriptor contains exactly the declared syntax, package, imports (with public/weak marks), messages, enums, services, methods, extensions, fields and enum values: each once, in declaration order within its list and scope, with the declared name, number, label, scalar type or type reference as written, extendee, streaming flags and field presence. Nothing is dropped, duplicated, reordered, renamed or invented.",
  ["inputs", "programs"], "all valid proto2/proto3 files over the supported grammar: arbitrary nesting, ordering and interleaving of declarations, any identifiers incl. keywords as names",
  "Snapshot tests cover one small file per construct; interleavings, nesting, keyword-named entities and long files are not reached.",
  [P+"parse/mod.rs", P+"generate/mod.rs", P+"ast/mod.rs"],
  [("parse_* statement parsers", P+"parse/mod.rs"), ("generate_*_descriptor", P+"generate/mod.rs")],
  observe=["protox_parse::parse -> FileDescriptorProto"])

p("C04", "Maps, groups, oneofs and proto3 optional are desugared correctly",
  "In every valid file each map field becomes a repeated message field plus one nested map-entry message (CamelCase field name + `Entry`, optional key=1 and value=2 of the declared types), each group becomes a lower-cased field plus a nested message holding its body, oneof members refer to the index of their own oneof, and each proto3 optional field outside a oneof gets its own synthetic oneof (`_name`, or `X_name` when the name starts with an underscore, with further `X`s prepended while a field or another oneof of the message has that name). Real oneofs keep declaration order and always come before all synthetic ones, and generated messages take their place in declaration order among nested messages.",
  ["inputs", "programs"], "all messages mixing maps, groups, oneofs, proto3 optionals, nested messages and extends, in any order and nesting, incl. groups within oneofs and extends",
  "Tests hold one or two desugared fields per message; index arithmetic over interleaved oneofs, optionals, groups and maps is only visible in combinations.",
  [P+"generate/mod.rs", P+"case.rs", P+"parse/mod.rs"],
  [("real_oneof_index / oneof_decl resize", P+"generate/mod.rs"), ("to_pascal_case", P+"case.rs"), ("generate_field_descriptor group/map arms", P+"generate/mod.rs")],
  observe=["DescriptorProto.field/oneof_decl/nested_type"])

p("C05", "Options keep their names and scalar values",
  "Every option statement or bracketed option (other than a field's default and json_name) in a valid file appears exactly once, in order, as an uninterpreted option of the element it was written on, with its name parts (plain or parenthesised extension, leading dot kept) in order and its value stored in the one slot matching its kind (identifier, unsigned integer, negative integer, double, string bytes or aggregate) and equal to the written value. Elements without options carry no options message.",
  ["inputs", "programs"], "options on files, messages, fields, oneofs, enums, enum values, services, methods, extension ranges and extension fields; any name shape, any value kind",
  "Tests check single options on a file; no test crosses option position, list length, name shape and value kind.",
  [P+"parse/mod.rs", P+"generate/mod.rs", P+"ast/mod.rs"],
  [("parse_option_body / parse_options_list", P+"parse/mod.rs"), ("generate_option(s)(_list), take_option", P+"generate/mod.rs")],
  observe=["*Options.uninterpreted_option"])

p("C06", "Aggregate option values preserve their text-format content",
  "The aggregate text stored for a `{ ... }` option value tokenises to the same sequence of text-format tokens (identifiers, punctuation, integer and float values, string bytes) as the source between the braces, with comments and layout removed, including nested braces, braces or quotes inside strings and comments, and text-format-only forms (`#` comments, `f` suffixed floats). Tokens after the closing brace are unaffected: those forms remain errors outside.",
  ["inputs"], "all text-format bodies with balanced braces, nested messages, lists, extensions/Any names, every literal form, any layout and comments",
  "Tests cover a handful of aggregate bodies; nested braces in strings/comments, suffixes and mode switching at the boundary are not crossed.",
  [P+"parse/mod.rs", P+"lex/mod.rs"],
  [("parse_text_format_message", P+"parse/mod.rs"), ("Token Display, text_format_mode", P+"lex/mod.rs")],
  [("text_format_mode", "lexer accepts text-format-only tokens", P+"lex/mod.rs")],
  observe=["UninterpretedOption.aggregate_value"])

p("C07", "Default values and json_name are canonicalised and type-checked",
  "A field's default is accepted exactly when its value fits the declared type: integers within the type's range, floats from any number or (signed) inf/nan, bools only true/false, valid UTF-8 strings for string, any string for bytes. An accepted default is stored as canonical text denoting the same value (decimal integer, a decimal float parsing to the same number, true/false, raw string, escaped bytes that unescape to the same bytes, enum identifier verbatim); json_name stores the string's value; and both are removed from the option list while the other options keep their order.",
  ["inputs"], "all scalar types crossed with all literal kinds and boundary values, signs, bases, escapes; position of default/json_name in the option list; forbidden positions (repeated, map, group, proto3)",
  "Tests check about thirty literal/type pairs; boundaries are tested for few types and no value round-trip is checked.",
  [P+"generate/mod.rs", P+"ast/mod.rs"],
  [("generate_field_default_value", P+"generate/mod.rs"), ("Int::as_i32/as_i64/as_u32/as_u64, OptionValue::as_f64, String Display", P+"ast/mod.rs"), ("take_option", P+"generate/mod.rs")],
  observe=["FieldDescriptorProto.default_value/json_name/options"])

p("C08", "Reserved and extension ranges denote exactly the declared numbers",
  "For every valid file each message reserved and extension range is stored with its inclusive start and exclusive end (a single number n is [n,n+1)), each enum reserved range with inclusive ends, `max` meaning 536870911 for messages (2147483646 when the message sets message_set_wire_format to true) and 2147483647 for enums; reserved names are stored verbatim. All ranges and names of repeated statements accumulate in source order, and options of an `extensions` statement are attached to each of its ranges.",
  ["inputs"], "all reserved/extensions statements in messages, groups and enums: single numbers, ranges, max, negative enum bounds, mixed bases, several statements, message_set option anywhere in the body",
  "Tests check one statement per file and few extrema.",
  [P+"generate/mod.rs", P+"parse/mod.rs", P+"case.rs"],
  [("generate_message_reserved_range / extension_range / enum_reserved_range", P+"generate/mod.rs"), ("parse_reserved(_range/_names), is_valid_ident", P+"parse/mod.rs")],
  observe=["DescriptorProto.reserved_range/extension_range/reserved_name", "EnumDescriptorProto.reserved_*"])

p("C09", "Literals denote the value the protobuf language assigns them",
  "Wherever a literal is accepted, string literals (either quote, any mix of raw characters, simple, octal, hex and \\u/\\U escapes, adjacent literals concatenated) decode to exactly the denoted bytes, decimal/octal/hex integers to the denoted 64-bit value, and floating literals (with or without integer part, fraction, exponent) to the nearest double; a leading minus negates.",
  ["inputs"], "all well-formed literals, incl. escapes adjacent to digits, multi-byte characters, boundary integers in every base, extreme exponents",
  "Lexer tests sample each escape once; adjacency effects (escape followed by digits, quote of other kind, concatenation across comments) are unbounded.",
  [P+"lex/mod.rs", P+"parse/mod.rs"],
  [("string()/int()/float() lexer callbacks", P+"lex/mod.rs"), ("parse_string concatenation", P+"parse/mod.rs")],
  observe=["UninterpretedOption values, dependency, reserved_name, json_name"])

p("C10", "Layout and comments never change the declared content",
  "Re-laying out a source file (any whitespace, line endings, line or block comments between tokens, extra empty statements where allowed, either quote style or integer base for the same literal value) leaves the verdict unchanged and the descriptor equal apart from source locations; the file name only affects the descriptor's name. Appending further declarations to a file leaves what was produced for the earlier declarations unchanged.",
  ["inputs"], "pairs of renderings of the same declarations with independent random layouts; extensions of a file by further statements",
  "A metamorphic relation between two inputs: no existing test compares two layouts of one file.",
  [P+"lex/mod.rs", P+"parse/mod.rs", P+"parse/comments.rs"],
  [("peek_skip_comments / peek", P+"parse/mod.rs"), ("logos skip patterns, comment tokens", P+"lex/mod.rs")],
  observe=["protox_parse::parse on both renderings"])

p("C11", "Source locations identify the declared elements exactly",
  "For every valid non-empty file the source info contains, sorted by path, exactly one location per occurrence of each declared element and sub-element (as in protoc's conventions: names, numbers, labels, types, extendees, options, ranges, streaming keywords, import marks, statement spans), whose path leads to that element in the descriptor and whose zero-based span covers exactly the bytes of its source text, on one line with three numbers or on several with four.",
  ["inputs", "programs"], "all valid files with arbitrary layout: multi-line statements, several declarations per line, multi-byte characters, comments inside statements",
  "Snapshots fix the spans of about forty small single-layout files; paths and indices in interleaved or nested declarations are not reached.",
  [P+"generate/mod.rs", P+"generate/lines.rs", P+"tag.rs", P+"parse/mod.rs"],
  [("add_span*/path stack", P+"generate/mod.rs"), ("LineResolver", P+"generate/lines.rs"), ("field-number constants", P+"tag.rs")],
  [("path", "stack of field numbers and indices", P+"generate/mod.rs")],
  observe=["SourceCodeInfo.location path/span"])

p("C12", "Comments are attached to the right declaration with the right text",
  "For every valid file each declaration's location carries the leading, trailing and leading-detached comments that the SourceCodeInfo documentation (and protoc) assigns: a comment block directly before a declaration is leading, one on the same line or directly after (and separated from the next declaration) is trailing, blocks separated by blank lines are detached, in order. Comment text is preserved line by line, including blank lines, without delimiters and without the leading whitespace and asterisk of block-comment continuation lines, CRLF as LF; no comment leaks to another declaration.",
  ["inputs"], "all placements of line/block comments and blank lines between declarations, at scope starts and ends and at file start and end; all comment texts",
  "Attribution depends on the whole gap between two declarations; tests have a few fixed gaps.",
  [P+"parse/comments.rs", P+"parse/mod.rs", P+"lex/mod.rs", P+"generate/mod.rs"],
  [("Comments state machine", P+"parse/comments.rs"), ("peek / parse_leading_comments / parse_trailing_comment", P+"parse/mod.rs"), ("line_comment / block_comment", P+"lex/mod.rs")],
  [("Comments", "pending detached/leading/trailing comments", P+"parse/comments.rs")],
  observe=["SourceCodeInfo.location comments"])

p("C13", "Malformed tokens are rejected where they occur",
  "A file that is valid except for one malformed token (bad or out-of-range escape, raw newline or NUL in a string, unterminated string or block comment, nested block comment, integer above 2^64-1, digit run glued to a letter, invalid UTF-8 from escapes where text is required, stray character, `#` comment or `f` suffix outside aggregate values) is always rejected, and the first reported error's span lies at or overlaps the malformed token (or reports end of file for unterminated constructs).",
  ["inputs"], "a valid file with one malformed token of any class injected at any token position",
  "Lexer tests reject each class once, in isolation, without checking that the parser surfaces it at every position.",
  [P+"lex/mod.rs", P+"parse/mod.rs", P+"error.rs"],
  [("lexer.extras.errors collected and checked by parse_file", P+"parse/mod.rs"), ("string()/int()/block_comment() error arms", P+"lex/mod.rs")],
  observe=["protox_parse::parse error and span"])

p("C14", "Exactly the protobuf grammar is accepted",
  "A sequence of well-formed tokens is accepted if and only if it is derivable from the proto2/proto3 grammar and violates no file-local rule; no ungrammatical file (missing, extra, swapped or replaced token, unbalanced bracket, truncated file) is silently accepted and no grammatical one rejected, and a rejected file's first error does not lie beyond the first token that makes it ungrammatical.",
  ["inputs"], "token sequences obtained from valid files by random token-level edits (delete, insert, duplicate, replace, swap, truncate, splice), plus unedited ones",
  "Tests try a few malformed statements; the set of near-valid files is unbounded.",
  [P+"parse/mod.rs", P+"generate/mod.rs"],
  [("expect/unexpected_token/terminator sets", P+"parse/mod.rs"), ("parse_file Ok only if no errors were recorded", P+"parse/mod.rs")],
  observe=["accept/reject verdict of protox_parse::parse vs an independent recogniser"])

p("C15", "Every file-local rule violation is reported at its construct",
  "If an otherwise valid file contains one or more violations of a file-local rule (unknown syntax; second package; field number outside 1..536870911; enum number outside int32; out-of-range bounds; missing, forbidden or extra label; required, group or default in proto3; map in oneof or extend; label on map or oneof member; illegal map key type; empty oneof; default on repeated, map or group or of the wrong type or range; negative identifier or too-small integer as option value; bad group, reserved or import name), parsing fails, each violation is reported, and nothing else is: the number of errors equals the number of violations and each one's label covers the offending construct.",
  ["inputs", "programs"], "valid files with one to several injected violations of any class at any depth and position",
  "Tests have about forty one-violation files with the violation in the same shallow position.",
  [P+"generate/mod.rs", P+"parse/mod.rs", P+"case.rs", P+"error.rs"],
  [("errors pushed by generate_*", P+"generate/mod.rs"), ("is_valid_group_name/is_valid_import", P+"parse/mod.rs")],
  observe=["ParseError kind, related, labels"])

p("C16", "Compilation yields the import closure in dependency order",
  "After any sequence of successful opens the compiled set with imports contains exactly the files opened and everything they transitively import, each once, every file after all files it imports, and without imports exactly the files opened explicitly; opening a file already present as an import makes it explicit, re-opening changes nothing, and the outcome for each file does not depend on the order of opens. A file is marked as import exactly when it was never opened explicitly, and source info is present exactly when requested.",
  ["histories", "configurations"], "all acyclic import graphs (plain, public, weak imports, diamonds, chains), all sequences of open calls with repetitions, both flags toggled at any time",
  "Tests compile sets of one to four files in one order.",
  [X+"compile/mod.rs", X+"file/mod.rs"],
  [("open_file/add_import recursion and files map", X+"compile/mod.rs"), ("include_imports/include_source_info filters", X+"compile/mod.rs")],
  [("files", "name -> metadata with is_import", X+"compile/mod.rs"), ("pool", "topologically ordered descriptors", X+"compile/mod.rs")],
  observe=["Compiler::file_descriptor_set/files/descriptor_pool"])

p("C17", "Broken import graphs are rejected and leave the compiler usable",
  "Opening a file whose transitive imports contain a cycle, a missing file, a file listed twice by one importer, or a file that fails to parse or check, always fails with an error of that kind identifying the file at fault (the importing file for missing or duplicate imports, whose error label covers exactly the import statement; for a reference that cannot be resolved, exactly the reference), whatever the order of imports. After a failed open no file that failed is part of the compiled set, and later opens behave as if on a compiler where the failed open had not happened, apart from valid files already loaded.",
  ["histories", "fault_sequences"], "import graphs with injected cycles (self, 2-cycles, long), missing files, duplicate imports, invalid files; sequences mixing failing and succeeding opens",
  "Tests open one broken file on a fresh compiler and stop.",
  [X+"compile/mod.rs", X+"error.rs"],
  [("import_stack cycle check, already_imported", X+"compile/mod.rs"), ("into_import_error/duplicated_import/find_import_span", X+"error.rs")],
  observe=["Compiler::open_file error, Error::is_file_not_found/is_parse/file, later Compiler state"])

p("C18", "Include paths resolve to the first match, and shadowing is detected",
  "For every set of include directories and every path, an import name resolves to the file of that name in the first include directory that contains it; a path given to open is resolved, ignoring `.` components, by the first include directory that is a prefix of it and otherwise looked up as an import name (unless it starts with `.`, which names a file relative to the working directory only); it is rejected as not included when it resolves nowhere or the part below the include contains `..` or non-UTF-8 components, and rejected as shadowed exactly when another include's file takes precedence under the resulting name. Precedence and prefixes are textual. The file actually read is the one reported, and a directory in its place is an I/O error.",
  ["inputs", "configurations"], "random directory trees, include lists (nested, duplicate, relative, absolute, with `.` components), files present in several includes, and path spellings",
  "Tests enumerate about fifteen fixed layouts with one or two include paths.",
  [X+"file/include.rs", X+"file/chain.rs", X+"compile/mod.rs"],
  [("iter_after/strip_prefix/path_eq", X+"file/include.rs"), ("check_shadow", X+"file/include.rs"), ("open_file name resolution", X+"compile/mod.rs")],
  observe=["Compiler::open_file/files, IncludeFileResolver::resolve_path/open_file"])

p("C19", "Resolver chains use the first resolver that knows the file",
  "A chain of resolvers returns the file (or path name) of the first resolver that has it, moving on only when a resolver reports the file as not found and stopping at any other error; the default compiler resolves each of the standard google/protobuf files when the include paths lack it and prefers an include-path copy otherwise. A descriptor-set resolver returns exactly the first file of the requested name.",
  ["inputs", "fault_sequences"], "chains of up to several resolvers with overlapping file sets, each lookup failing with not-found, I/O, parse or custom errors; all well-known names and near misses",
  "Tests use one chain of three resolvers without faults.",
  [X+"file/chain.rs", X+"file/google.rs", X+"file/descriptor_set.rs", X+"compile/mod.rs"],
  [("ChainFileResolver::open_file/resolve_path", X+"file/chain.rs"), ("GoogleFileResolver name table", X+"file/google.rs")],
  observe=["FileResolver::open_file/resolve_path, Compiler::new"])

p("C20", "All outputs of a compiler agree and survive a round trip",
  "For any compiled program the encoded descriptor set decodes to the same files as the in-memory set for every combination of flags (including extension options, which only the encoded form and the descriptor pool carry), the file list and descriptor pool list the same files in the same order, and recompiling from the output through a descriptor-set resolver (decoded or, without extension options, in-memory) reproduces it byte for byte (up to the packing of a packed extension option used in the very file that declares it, which like in protoc is packed only once the declaration is known).",
  ["programs", "configurations"], "compiled multi-file programs with standard and custom options, all four flag combinations",
  "Tests compare one small program for one flag combination.",
  [X+"compile/mod.rs", X+"file/descriptor_set.rs", X+"file/mod.rs"],
  [("encode_file_descriptor_set transcoding", X+"compile/mod.rs"), ("DescriptorSetFileResolver::decode keeps encoded bytes", X+"file/descriptor_set.rs"), ("check_file encoded path", X+"compile/mod.rs")],
  observe=["Compiler::encode_file_descriptor_set/file_descriptor_set/files/descriptor_pool"])

p("C21", "Compiled programs equal protoc's output",
  "For every valid program within the supported language, the compiled descriptor set (resolved type names, json names, interpreted standard and custom options, defaults, synthetic elements, and source locations with comments) equals the one protoc produces for the same sources (up to the spelling of float defaults, empty comments and empty method options), and a program in which the type of a field or method, the extendee of an extension or an option name refers to something that is declared nowhere, is not visible through imports, or is of the wrong kind is rejected, as protoc rejects it.",
  ["programs"], "generated multi-file programs with cross-file type references at all scopes, custom options, extensions, services; reference-breaking mutations",
  "The comparison tests against protoc use a fixed set of files (and need a submodule absent here).",
  [X+"compile/mod.rs", P+"parse/mod.rs", P+"generate/mod.rs"],
  [("parse -> DescriptorPool pipeline", X+"compile/mod.rs")],
  observe=["Compiler::encode_file_descriptor_set vs protoc --descriptor_set_out"])

p("C22", "Failures are classified by cause and name the file",
  "When opening a file fails, the error is a parse error exactly for invalid source text (syntax errors, invalid UTF-8), an I/O error exactly for failures of the file system other than absence, and a not-found error exactly when the file or an import is absent or outside the include paths; at most one class applies (none for import cycles, duplicate imports, shadowing and failed name resolution), the error names the file at fault, and its debug text contains the cause. A file opened or built from source exposes the given name, path, source and the descriptor of that source.",
  ["fault_sequences", "inputs"], "all file states (absent, directory, dangling symlink, unreadable, invalid UTF-8 at any offset, invalid source, valid) at the root or at any import depth",
  "Tests cover about six fixed failure layouts.",
  [X+"error.rs", X+"file/mod.rs", X+"compile/mod.rs"],
  [("File::open map_io_err", X+"file/mod.rs"), ("is_parse/is_io/is_file_not_found/file", X+"error.rs")],
  observe=["Error::is_*/file/Debug, File accessors"])

p("C23", "The command-line tool produces what the library produces",
  "For every program and flag combination the protox command exits successfully exactly when the library compiles the same files with the same include paths (and the output can be written), then writes to the output path exactly the bytes the library encodes for the same flags, and on failure exits non-zero with the error on stderr without writing the output file.",
  ["configurations", "programs"], "generated programs (valid and broken), include lists (also default), both flags, long and alias option spellings, one or more input files, with and without output path",
  "No test runs the binary.",
  [X+"main.rs"],
  [("argument mapping to Compiler", X+"main.rs")],
  observe=["exit status, output file bytes, stderr"])

p("C24", "Decoding descriptor bytes is total and faithful",
  "Decoding a descriptor set or a single file descriptor from arbitrary bytes never panics and succeeds exactly when the bytes are a well-formed encoding; on success the resolver finds exactly the encoded files, in order, with the same content a plain decode gives, ignores unknown fields, and keeps extension options when the file is compiled; compiling what was decoded always ends in a result.",
  ["inputs"], "arbitrary bytes, valid encodings, and their truncations, bit flips, appended unknown fields, repeated and duplicate files",
  "Tests decode two fixed byte strings.",
  [X+"file/descriptor_set.rs", X+"file/mod.rs"],
  [("DescriptorSetFileResolver::decode", X+"file/descriptor_set.rs"), ("File::decode_file_descriptor_proto", X+"file/mod.rs")],
  observe=["DescriptorSetFileResolver::decode/open_file, File::decode_file_descriptor_proto"])

p("C25", "Results are reproducible",
  "Parsing and compiling depend on their inputs alone: the same sources, opened in the same order under the same include paths, give the same descriptors, outputs, file list, pool and error text (spans included) every time, whatever was parsed or compiled before in the process, also under equal names or with nearly equal texts, whatever is parsed or compiled at the same time on other threads, in another process, from another working directory or with another environment, and, paths aside, when the files lie elsewhere on disk; a file that has changed on disk is read anew by a new compiler.",
  ["histories", "schedules", "configurations"], "batches of parse and compile jobs, valid and invalid, many alike in name or text, replayed in random order, on several threads at once, in child processes with other environments, and from other directories",
  "Tests run each input once, in one process, and compare with a fixed answer.",
  [P+"lib.rs", P+"parse/mod.rs", P+"lex/mod.rs", X+"compile/mod.rs", X+"file/mod.rs"],
  [("no state outlives a call; outputs are ordered", X+"compile/mod.rs"), ("parser state is per call", P+"parse/mod.rs")],
  observe=["protox_parse::parse, Compiler outputs and errors, repeated"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props), "properties")
