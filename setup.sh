#!/bin/bash
# builds every checker (the checks rebuild what changed)
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target evidence/replay
(cd mc && cargo build --release --offline) || exit 2
(cd /repo && find -L src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1) > target/.srchash
