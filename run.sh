#!/bin/bash
# usage: run.sh <binary> <property> : rebuilds the checker against /repo's working tree and runs it.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
bin="$1"; prop="$2"
T="$PWD/target"
mkdir -p "$T" evidence/replay
# cargo decides by modification time: when the sources differ from the last build, drop its verdict
h=$(cd /repo && find -L src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$T/.srchash" 2>/dev/null)" != "$h" ]; then
  find "$T/release/.fingerprint" -maxdepth 1 -name 'hibou-*' -exec rm -rf {} + 2>/dev/null
  echo "$h" > "$T/.srchash"
fi
log=$(mktemp)
if ! (cd mc && cargo build --release --offline --bin "$bin" --bin hl >"$log" 2>&1); then
  tail -40 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
ulimit -v 29000000 2>/dev/null
"$T/release/$bin" "$prop"
rc=$?
if [ $rc -ge 128 ] && [ $rc -ne 130 ] && [ $rc -ne 143 ]; then
  r="$PWD/evidence/replay/$prop.txt"
  echo "property: $prop
the code under test crashed the checker (status $rc: stack overflow, abort or memory exhaustion)
re-run: bash run.sh $bin $prop" > "$r"
  echo "VIOLATION property=$prop replay=$r"
  exit 1
fi
exit $rc
