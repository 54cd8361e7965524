#!/bin/bash
# check.sh <property id> [quick|thorough] [--only N]: build the checker for one property against the
# current /repo and run it. Exit 0: held; 1: VIOLATION printed; 2: could not be decided.
set -u
cd "$(dirname "$0")/mc" || exit 2
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# Build output goes to one place; a lock keeps concurrent runs apart.
mkdir -p target
exec 9>target/.check.lock
flock 9
# Cargo compares modification times: force a rebuild whenever the content of the sources changed.
sum=$(cd /repo && find scale-decode scale-decode-derive Cargo.toml -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline -p scale-decode -p scale-decode-derive >/dev/null 2>&1
    echo "$sum" > target/.repo-sum
fi
if ! cargo build --release --offline --locked --bin "$bin" >target/build-$bin.log 2>&1; then
    tail -40 target/build-$bin.log >&2
    echo "check $id: build failed" >&2
    exit 2
fi
cp target/release/$bin target/run-$bin.$$ || exit 2
flock -u 9
./target/run-$bin.$$ "$tier" "$@"
rc=$?
rm -f "$PWD/target/run-$bin.$$"
exit $rc
