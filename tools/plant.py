#!/usr/bin/env python3
"""Builds and verifies planted bugs: tools/plants/*.py -> seeded/<id>/ (development aid).

For each bug: write the patch and its demonstration, then on /repo itself (restored straight
afterwards): demo passes unpatched, the patch builds, the stable tests pass, the demo fails.
With --check also runs the property's quick check and reports whether it is caught."""
import json, os, pathlib, shutil, subprocess, sys, importlib.util
ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
BUGS = {}
for f in sorted((ROOT / "tools/plants").glob("*.py")):
    spec = importlib.util.spec_from_file_location(f.stem, f); m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b["id"] not in BUGS, b["id"]
        BUGS[b["id"]] = b
PARSE_TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
protox-parse = { path = "/repo/protox-parse" }
prost-types = "0.13.0"
miette = "7.2.0"
'''
PROTOX_TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]
members = ["protox"]

[dependencies]
protox-parse = { path = "/repo/protox-parse" }
protox = { path = "protox" }
prost-types = "0.13.0"
prost = "0.13.0"
bytes = "1.6.0"
'''
SHADOW = (ROOT / "harness/protox-shadow/Cargo.toml").read_text()
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour described in main.rs holds for /repo's current tree.
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/Cargo.toml.in" "$work/Cargo.toml"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cp "$here/main.rs" "$work/src/main.rs"
@SHADOW@export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$work/target}"
cd "$work" || exit 2
cargo build --offline --quiet @PKG@|| exit 2
cd "$work/scratch" || exit 2
@RUN@
'''
SHADOW_SH = '''mkdir -p "$work/protox/protobuf/src/google"
cp "$here/protox.toml.in" "$work/protox/Cargo.toml"
cp -r /usr/include/google/protobuf "$work/protox/protobuf/src/google/protobuf"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def restore():
    sh("git -C /repo checkout -- .")
def make(b):
    d = SEEDED / b["id"]
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    for path, old, new in b["edits"]:
        p = pathlib.Path("/repo") / path
        s = p.read_text()
        n = b.get("nth", {}).get(path)
        if s.count(old) != 1:
            restore()
            raise ValueError((b["id"], path, s.count(old), old))
        p.write_text(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    restore()
    (d / "patch.diff").write_text(diff)
    protox = b.get("kind", "parse") != "parse"
    cli = b.get("kind") == "cli"
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    (d / "Cargo.toml.in").write_text(PROTOX_TOML if protox else PARSE_TOML)
    if protox: (d / "protox.toml.in").write_text(SHADOW)
    (d / "main.rs").write_text(b.get("demo", "fn main() {}\n").lstrip("\n"))
    run = b.get("run", '"$CARGO_TARGET_DIR/debug/demo"').strip()
    if cli: run = 'protox="$CARGO_TARGET_DIR/debug/protox"\n' + run
    s = DEMO.replace("@SHADOW@", SHADOW_SH if protox else "").replace("@PKG@", "--bins -p demo -p protox " if cli else "")
    (d / "demo.sh").write_text(s.replace("@RUN@", run))
    os.chmod(d / "demo.sh", 0o755)
    lock = ROOT / "tools" / ("demo-protox.lock" if protox else "demo-parse.lock")
    shutil.copy(lock, d / "Cargo.lock")
    return d
def demo(d, b):
    env = dict(os.environ, DEMO_TARGET_DIR="/tmp/demo-target-" + ("protox" if b.get("kind", "parse") != "parse" else "parse"))
    # the demo's path dependency decides by mtime; forget it
    sh(f"rm -rf {env['DEMO_TARGET_DIR']}/debug/.fingerprint/protox-* {env['DEMO_TARGET_DIR']}/debug/.fingerprint/demo-*")
    return subprocess.run(["timeout", "300", "bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True, env=env)
def main():
    args = sys.argv[1:]
    check = "--check" in args
    only_check = "--only-check" in args
    args = [a for a in args if not a.startswith("--")]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert sh("git -C /repo status --short").stdout == "", "dirty /repo"
    for id in args or BUGS:
        b = BUGS[id]
        out = []
        try:
            if only_check:
                d = SEEDED / id
            else:
                try: d = make(b)
                except ValueError as e: print("EDIT", e, flush=True); continue
                r = demo(d, b)
                out.append("demo0=%d" % r.returncode)
                if r.returncode: print(id, "DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-1500:]); continue
            r = sh(f"git -C /repo apply {d}/patch.diff")
            assert r.returncode == 0, r.stderr
            if not only_check:
                r = sh("bash /opt/vp/build.sh")
                if r.returncode: print(id, "BUILD FAILS", r.stderr[-1500:]); continue
                sh("bash /opt/vp/test.sh /tmp/plant-out.json")
                o = json.load(open("/tmp/plant-out.json"))
                miss = [t for t in base if t not in o["passed"]]
                if miss: print(id, "TESTS FAIL", miss); continue
                r = demo(d, b)
                out.append("demo1=%d" % r.returncode)
                if r.returncode == 0: print(id, "DEMO PASSES PATCHED"); continue
                pass
            if check or only_check:
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 {ROOT}/run.sh {b['property']} quick")
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                out.append("check=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
        finally:
            restore()
        print(id, b["property"], " ".join(out), flush=True)
main()
