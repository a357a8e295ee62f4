#!/usr/bin/env python3
"""Systematic small mutations of protox's sources, to find what no check notices (development aid).

usage: mutate.py OUTDIR WORKERS [--sample N] [--seed S] [--only FILE-SUBSTRING] [--div D]
Each worker has its own copies of /repo and of the harness under OUTDIR.  A mutant that builds and
passes the stable tests is run through the checks (a D-th of the quick cases each, no shrinking)
until one reports a violation; those that none reports are listed as survivors."""
import json, os, pathlib, random, re, shutil, subprocess, sys, threading, queue
args = sys.argv[1:]
out = pathlib.Path(args[0]); workers = int(args[1])
def opt(n, d):
    return type(d)(args[args.index(n) + 1]) if n in args else d
sample, seed, only, div = opt("--sample", 0), opt("--seed", 1), opt("--only", ""), opt("--div", 6)
PARSE = "C03 C15 C14 C11 C12 C13 C02 C07 C08 C09 C06 C05 C04 C10 C01 C21 C22 C17 C16".split()
PROTOX = "C17 C16 C18 C19 C22 C20 C23 C24 C21".split()
CASES = {"C01": 350, "C02": 1500, "C10": 500, "C11": 600, "C12": 600, "C13": 2500, "C14": 3000, "C15": 1500, "C16": 60, "C17": 60,
         "C18": 400, "C19": 2000, "C20": 9, "C21": 30, "C22": 600, "C23": 40, "C24": 14}
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def strip_tests(lines):
    """line numbers that are code (not comments, tests or attributes)"""
    ok = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("mod tests {"):
            break
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod")):
            continue
        ok.append(i)
    return ok

SWAPS = [
    (r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= 1\b", " += 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"if !", "if "), (r"if (?!let|!)([a-z_.]+\()", r"if !\1"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(", ".last("), (r"\.last\(", ".first("),
    (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.start\b", ".end"), (r"\.end\b", ".start"),
    (r"Some\(span\)", "None"), (r"\bOk\(None\)", "Err(())"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bleading\b", "trailing"), (r"start_span", "end_span"), (r"end_span", "start_span"),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b(\d{2,})\b", r"(\1 - 1)"), (r"\.to_ascii_lowercase\(\)", ".to_owned()"),
    (r"\.find\(", ".rfind("), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.cloned\(\)", ".cloned().take(1)"), (r"\.\.=", ".."),
    (r"\.iter\(\)", ".iter().rev()"), (r"\bSyntax::Proto2\b", "Syntax::Proto3"), (r"\bSyntax::Proto3\b", "Syntax::Proto2"),
    (r"\.unwrap_or\((true|false)\)", r".unwrap_or(!\1)"), (r"-value", "value"), (r"&&", "||"),
    (r"\.push\(", ".insert(0, "), (r"\.insert\(", ".remove("), (r"\binput_ty\b", "output_ty"), (r"\boutput_ty\b", "input_ty"), (r"client_streaming", "server_streaming"),
    (r"Some\(true\)", "Some(false)"), (r"Some\(true\)", "None"), (r"is_public", "is_weak"), (r"\bpublic_dependency\b", "weak_dependency"),
]

def mutants():
    ms = []
    files = [f for d in ("protox-parse/src", "protox/src") for f in sorted(pathlib.Path("/repo", d).rglob("*.rs")) if f.name != "tests.rs" and "test" not in f.name]
    for f in files:
        rel = str(f.relative_to("/repo"))
        if only and only not in rel:
            continue
        text = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{rel}"], capture_output=True, text=True).stdout
        lines = text.split("\n")
        for i in strip_tests(lines):
            l = lines[i]
            for pat, rep in SWAPS:
                for m in re.finditer(pat, l):
                    n = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if n != l:
                        ms.append((rel, i, l, n))
            s = l.strip()
            # a statement of one line goes away
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "break", "continue", ")", "const ", "static ", "pub ", "extern ", "type ")) and s.count("(") == s.count(")"):
                ms.append((rel, i, l, l[: len(l) - len(l.lstrip())] + "();" if False else ""))
            # an alternative of a pattern or an arm goes away
            if s.startswith("| ") and not s.startswith("|| "):
                ms.append((rel, i, l, ""))
            for m in re.finditer(r" \| ([A-Za-z:_0-9]+(\([^()]*\))?)", l):
                ms.append((rel, i, l, l[:m.start()] + l[m.end():]))
            for m in re.finditer(r"([A-Za-z:_0-9]+(\([^()]*\))?) \| ", l):
                ms.append((rel, i, l, l[:m.start()] + l[m.end():]))
            if re.match(r".* => .*,$", s) and "{" not in s:
                ms.append((rel, i, l, ""))
            if s.startswith("Token::") and s.endswith(","):
                ms.append((rel, i, l, ""))
            if re.match(r"^\w+,$", s) or re.match(r"^\w+: .*,$", s):
                pass
    seen, r = set(), []
    for m in ms:
        if (m[0], m[1], m[3]) not in seen:
            seen.add((m[0], m[1], m[3])); r.append(m)
    return r

def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def setup(k):
    d = out / f"w{k}"
    d.mkdir(parents=True, exist_ok=True)
    sh(f"rsync -a --delete --exclude .git /repo/ {d}/repo/", 600)
    sh(f"git -C /repo archive HEAD | tar -x -C {d}/repo", 60)
    sh(f"rsync -a --delete --exclude .git --exclude replays --exclude seeded /verif/ {d}/verif/", 600)
    sh(f"sed -i 's#/repo#{d}/repo#g' {d}/verif/harness/Cargo.toml {d}/verif/harness/protox-shadow/Cargo.toml {d}/verif/run.sh", 60)
    return d

log = open(out / "log.txt", "a", buffering=1) if out.exists() else None
lock = threading.Lock()
def work(k, q):
    d = setup(k)
    env = dict(os.environ, PBT_SHRINK="0", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: n, (rel, i, old, new) = q.get_nowait()
        except queue.Empty: return
        p = d / "repo" / rel
        text = p.read_text(); lines = text.split("\n")
        if lines[i] != old:
            with lock: print("STALE", rel, i, file=log)
            continue
        lines[i] = new
        p.write_text("\n".join(lines))
        verdict = "?"
        try:
            parse = rel.startswith("protox-parse")
            if parse:
                r = sh(f"cd {d}/repo && INSTA_UPDATE=no CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_NET_OFFLINE=true cargo test -p protox-parse --offline --no-fail-fast --target-dir {d}/repo/target -- --test-threads 2 2>&1", 300)
                o = r.stdout
                if "error: could not compile" in o or "error[" in o: verdict = "nobuild"
                elif any(re.search(r"^test .*" + re.escape(t.split("::", 1)[1]) + r" \.\.\. (FAILED|failed)", o, re.M) for t in base) or r.returncode == 124 or "SIGABRT" in o or "signal:" in o: verdict = "tests"
            if verdict == "?":
                for c in (PARSE if parse else PROTOX):
                    e = dict(env, PBT_CASES=str(CASES.get(c, 1000) * 1000 // div))
                    r = sh(f"bash {d}/verif/run.sh {c} quick", 900, env=e)
                    if r.returncode == 3: verdict = "nobuild"; break
                    if r.returncode == 1 and "VIOLATION" in r.stdout: verdict = "caught " + c; break
                    if r.returncode != 0: verdict = f"odd {c} {r.returncode} {(r.stderr or r.stdout)[-200:]!r}"; break
                else:
                    verdict = "SURVIVED"
        finally:
            p.write_text(text)
        with lock:
            print(f"{n} {verdict} {rel}:{i+1}\n    - {old.strip()}\n    + {new.strip()}", file=log)

def main():
    global log
    out.mkdir(parents=True, exist_ok=True)
    log = open(out / "log.txt", "a", buffering=1)
    ms = mutants()
    random.Random(seed).shuffle(ms)
    if sample: ms = ms[:sample]
    print(len(ms), "mutants", file=log)
    q = queue.Queue()
    for n, m in enumerate(ms): q.put((n, m))
    ts = [threading.Thread(target=work, args=(k, q)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("done", file=log)
if __name__ == "__main__":
    main()
