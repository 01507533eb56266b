#!/bin/bash
# Builds a scratch copy of the crate in the current directory with a program that reads the file beside this script
# and compares what the public interface shows of it with expected.txt (no expected.txt: the file must be rejected).
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r Cargo.lock src "$T"/ && sed '/^\[dev-dependencies\]/,$d' Cargo.toml > "$T/Cargo.toml" || exit 3
mkdir -p "$T/src/bin/vxdemo" && cp "$D/main.rs" "$D/dump.rs" "$T/src/bin/vxdemo/" || exit 3
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q --bin vxdemo 2> "$T/err" || { cat "$T/err"; exit 3; }
cp -r "$D" "$T/scratch" && cd "$T/scratch" || exit 3
# symbolic links of a notebook directory are kept as NAME.link files holding the target
[ -d notebook ] && find notebook -name '*.link' | while read -r l; do
  t=$(cat "$l"); case "$t" in */nb/*) t="$T/scratch/notebook/${t##*/nb/}";; esac
  ln -s "$t" "${l%.link}" && rm "$l"
done
timeout 100 "$T/target/debug/vxdemo"
