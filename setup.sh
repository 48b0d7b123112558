#!/bin/bash
# Builds the harness (offline) from the committed files and /repo's working tree.
verif=$(cd "$(dirname "$0")" && pwd) || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$verif" || exit 2
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p harness/target evidence replays
exec cargo build --release --offline --quiet --manifest-path harness/Cargo.toml
