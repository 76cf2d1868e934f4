#!/bin/bash
# ./run.sh <ID> quick|thorough          explore and write evidence/<ID>.json
# ./run.sh <ID> replay <file>           re-execute one recorded counterexample
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export MC_ROOT="$PWD" MC_CFG="$PWD"
id=$1
shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=$(mktemp)
if ! cargo build --offline --release --quiet --manifest-path mc/Cargo.toml --bin "$bin" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "cannot build the check" >&2
    exit 2
fi
if [ "$bin" = c24 ] && ! cargo build --offline --profile o0 --quiet --manifest-path mc/Cargo.toml --bin "$bin" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "cannot build the check" >&2
    exit 2
fi
rm -f "$log"
exec "mc/target/release/$bin" "$@"
