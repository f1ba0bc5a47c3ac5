# runs demo.rs (beside this file) inside a scratch copy of the crate
HERE="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/p"; cp -r "$PWD/src" "$PWD/Cargo.toml" "$W/p/"; [ -f "$PWD/Cargo.lock" ] && cp "$PWD/Cargo.lock" "$W/p/"
sed -i 's/fn main *()/#[allow(dead_code)] fn command_line()/' "$W/p/src/main.rs"
printf '\nmod demo;\nfn main() { demo::main() }\n' >> "$W/p/src/main.rs"
cp "$HERE/demo.rs" "$W/p/src/demo.rs"
cd "$W/p" || exit 3
CARGO_TARGET_DIR="$W/t" cargo build --offline > "$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 0; }
mkdir -p "$W/run"; cd "$W/run" || exit 3
"$W/t/debug/hibou_label"
