#!/bin/bash
# Builds a scratch copy of the crate in the current directory with demo.rs as a module of it, and runs demo::run().
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r Cargo.lock src "$T"/ && sed '/^\[dev-dependencies\]/,$d' Cargo.toml > "$T/Cargo.toml" || exit 3
cp "$D/demo.rs" "$T/src/vx_demo.rs"
printf '\n#[doc(hidden)] #[allow(missing_docs, dead_code, unused_imports)] pub mod vx_demo;\n' >> "$T/src/lib.rs"
mkdir -p "$T/src/bin" && printf 'fn main() { onenote_parser::vx_demo::run(); println!("demo: ok"); }\n' > "$T/src/bin/vxdemo.rs"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q --bin vxdemo 2> "$T/err" || { cat "$T/err"; exit 3; }
mkdir "$T/scratch" && cd "$T/scratch" && timeout 60 "$T/target/debug/vxdemo"
