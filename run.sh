#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE]
# Rebuilds the harness (and with it /repo's crates) from the current tree, then runs one check.
# exit 0: held; 1: VIOLATION printed; anything else: the check itself could not run.
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
cd "$here/harness" || exit 3
# cargo decides by modification time; decide by content, so that a changed file with an old
# time is noticed as well.
now="$(find /repo/protox-parse /repo/protox -name target -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$now" != "$(cat target/.repo-stamp 2>/dev/null)" ]; then
    rm -rf "$here"/harness/target/debug/.fingerprint/protox-*
fi
if ! cargo build --offline --quiet --bins -p pbt -p protox 2>"$here/harness/build.log"; then
    tail -40 "$here/harness/build.log" >&2
    echo "build failed" >&2
    exit 3
fi
echo "$now" >target/.repo-stamp
exec "$here/harness/target/debug/pbt" "$@"
