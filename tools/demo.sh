#!/bin/bash
# builds main.rs (beside this file) against the crates of the repository in the current directory and runs it
HERE="$(cd "$(dirname "$0")" && pwd)"
ROOT="$(pwd)"
. /opt/vp/env.sh
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'find "$W" -delete' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$ROOT/Cargo.lock" "$W/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nserde_json = "1"\n'
  for d in $(sed -n 's,^// dep: ,,p' "$HERE/main.rs"); do
    n="$(sed -n 's/^name = "\(.*\)"/\1/p' "$ROOT/crates/$d/Cargo.toml" | head -n 1)"
    printf '%s = { path = "%s/crates/%s" }\n' "$n" "$ROOT" "$d"
  done
} > "$W/Cargo.toml"
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
cd "$W" || exit 2
cargo build --offline -q || exit 3
timeout 120 "$W/target/debug/demo"
