#!/bin/bash
# builds what the checks need; each check builds it itself when it is missing
cd "$(dirname "$0")" || exit 1
(cd extract && cargo build --offline -q) || exit 1
(cd replay && RUSTFLAGS="--cfg onenote_verif" CARGO_TARGET_DIR=target/hook cargo build --offline --release -q) || echo "replay crate not built"
exit 0
