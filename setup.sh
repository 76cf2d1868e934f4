#!/bin/bash
# Builds the checks once; every check rebuilds what changed.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cargo build --offline --release --quiet --manifest-path mc/Cargo.toml --bins
cargo build --offline --profile o0 --quiet --manifest-path mc/Cargo.toml --bin c24
