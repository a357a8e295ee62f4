use crate::engine::*;

pub mod bytesp;
pub mod classify;
pub mod cli;
pub mod errors;
pub mod grammar;
pub mod graph;
pub mod layoutp;
pub mod malformed;
pub mod outputs;
pub mod paths;
pub mod program;
pub mod repro;
pub mod resolve;
pub mod structural;
pub mod total;

/// a name for a generated file: what a file is called changes nothing in how it is read
pub fn file_name(t: &mut crate::engine::Tape) -> &'static str {
    if !t.pct(20) {
        return "dir/file.proto";
    }
    t.pick(&[
        "a.proto",
        "",
        "google/protobuf/descriptor.proto",
        "google/protobuf/any.proto",
        "google/protobuf/compiler/plugin.proto",
        "google/api/annotations.proto",
        "/abs/x.proto",
        "./x.proto",
        "../x.proto",
        "a\\b.proto",
        "C:\\x.proto",
        "\u{e9}/\u{4e2d}.proto",
        "noext",
        "a b:1:2.proto",
        "x.PROTO",
        "dir/",
        "descriptor.proto",
        "unittest_proto3.proto",
        "a.protodevel",
        "test.proto",
    ])
}

pub const THREADS: usize = 8;

pub fn go(ctx: &Ctx, spec: Spec, replay: Option<&str>) -> i32 {
    if let Some((index, tape, fresh)) = &ctx.probe {
        return probe(ctx, &spec, *index, tape, *fresh);
    }
    match replay {
        Some(p) => crate::engine::replay(ctx, &spec, p),
        None => run(ctx, &spec),
    }
}

pub fn child(prop: &str, args: &[String]) -> i32 {
    match prop {
        "C16" => graph::child(args),
        "C01" => total::child(),
        "C23" => cli::child(),
        "C25" => repro::child(),
        _ => 2,
    }
}

pub fn dispatch(ctx: &Ctx, prop: &str, replay: Option<&str>) -> i32 {
    match prop {
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => structural::run_prop(ctx, prop, replay),
        "C01" => total::run_c01(ctx, replay),
        "C02" => errors::run_c02(ctx, replay),
        "C13" => malformed::run_c13(ctx, replay),
        "C14" => grammar::run_c14(ctx, replay),
        "C15" => errors::run_c15(ctx, replay),
        "C16" | "C17" => graph::run_prop(ctx, prop, replay),
        "C18" => paths::run_prop(ctx, replay),
        "C19" => resolve::run_prop(ctx, replay),
        "C20" => outputs::run_prop(ctx, replay),
        "C21" => program::run_c21(ctx, replay),
        "C22" => classify::run_prop(ctx, replay),
        "C23" => cli::run_prop(ctx, replay),
        "C24" => bytesp::run_prop(ctx, replay),
        "C25" => repro::run_prop(ctx, replay),
        "C10" | "C11" | "C12" => layoutp::run_prop(ctx, prop, replay),
        _ => {
            eprintln!("unknown property {prop}");
            2
        }
    }
}
