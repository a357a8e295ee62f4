use pbt::checks;
use pbt::engine::Ctx;
use std::time::Instant;

fn main() {
    pbt::engine::install_panic_hook();
    let args: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().into_owned()).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let mode = args.get(1).cloned().unwrap_or_else(|| "quick".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| mode.clone());
    let tier = if mode == "thorough" || tier == "thorough" { "thorough" } else { "quick" }.to_string();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| std::path::PathBuf::from("/verif"));
    let mut ctx = Ctx { tier, seed, root, start: Instant::now(), probe: None };
    let replay = if mode == "replay" { Some(args[2].clone()) } else { None };
    // children of checks that need process isolation
    if mode == "child" {
        std::process::exit(checks::child(&prop, &args[2..]));
    }
    if mode == "probe" || mode == "record" {
        ctx.probe = Some((args[2].parse().unwrap(), args[3].clone().into(), mode == "record"));
    } else if std::env::var_os("PBT_WORKER").is_none() {
        // everything else runs in a child, so that a crash or hang of the code under test is an answer
        std::process::exit(pbt::supervise::supervise(&ctx, &prop, &mode, replay.as_deref()));
    }
    std::process::exit(checks::dispatch(&ctx, &prop, replay.as_deref()));
}
