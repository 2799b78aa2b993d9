#!/bin/bash
# Prebuilds what the checks need; every check builds what is missing itself.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
cd "$(dirname "$0")" || exit 1
cargo build --offline --manifest-path harness/Cargo.toml --target-dir build/harness || exit 1
cargo build -q --offline --manifest-path extract/Cargo.toml --target-dir build/extract || exit 1
NRBF_VERIF_HOOK=$PWD/kani timeout 600 cargo kani --manifest-path /repo/Cargo.toml --features serde -Z stubbing --target-dir build/kani --output-format terse --exact --harness verif::time_span_value || exit 1
exit 0
