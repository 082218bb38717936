#!/bin/bash
# builds main.rs (beside this file) against the library in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d"/*.rs "$t/src/"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nnt-hive = { path = "%s" }\n' "$r" > "$t/Cargo.toml"
cp "$r/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"; unset RUSTFLAGS
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo"
