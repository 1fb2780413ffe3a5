#!/bin/bash
# builds main.rs (beside this file) against the language crates of the current directory and runs it;
# the crates that cannot be had offline are replaced by the stand-ins in shims/
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'cd /; find "$tmp" -delete' EXIT
mkdir -p "$tmp/demo/src" "$tmp/sm_ast" "$tmp/sm_parser" "$tmp/sm_playground"
cp -r "$here/shims" "$tmp/shims"
cp "$here/main.rs" "$tmp/demo/src/main.rs"
cat > "$tmp/sm_parser/Cargo.toml" <<EOF
[package]
name = "sm_parser"
version = "0.1.0"
edition = "2018"
[lib]
path = "$repo/projects/sm-parser/src/lib.rs"
[dependencies]
pest = { version = "2.1.3", features = ["const_prec_climber"] }
EOF
cat > "$tmp/sm_ast/Cargo.toml" <<EOF
[package]
name = "sm_ast"
version = "0.1.0"
edition = "2018"
autotests = false
[lib]
path = "$repo/projects/sm-ast/src/lib.rs"
[dependencies]
num = "0.2"
itertools = "0.9"
lazy_static = "1.4.0"
bigdecimal = { path = "../shims/bigdecimal" }
text-utils = { path = "../shims/text-utils" }
wolfram_wxf = { path = "../shims/wolfram_wxf" }
sm_parser = { path = "../sm_parser" }
sm_algorithm = { path = "$repo/projects/sm-algorithm" }
EOF
cat > "$tmp/sm_playground/Cargo.toml" <<EOF
[package]
name = "sm_playground"
version = "0.0.5"
edition = "2018"
autotests = false
[lib]
path = "$repo/projects/sm-playground/src/lib.rs"
[dependencies]
wasm-bindgen = "0.2.67"
lazy_static = "1.4"
sm_ast = { path = "../sm_ast" }
EOF
cat > "$tmp/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sm_ast = { path = "../sm_ast" }
sm_parser = { path = "../sm_parser" }
sm_playground = { path = "../sm_playground" }
wolfram_wxf = { path = "../shims/wolfram_wxf" }
num = "0.2"
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" SCRATCH="$tmp/scratch"
mkdir "$SCRATCH"
cd "$tmp/demo"
cargo +nightly build -q 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
