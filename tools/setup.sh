#!/bin/sh
# Build everything from the committed files and check the tool chain: the
# Java override against the TLA+ text it replaces.
V=$(cd "$(dirname "$0")/.." && pwd)
sh "$V/tools/sync.sh" || exit 2
sed 's/Depth = 2/Depth = 0/' "$V/spec/FxCheck.cfg" > "$V/build/spec/FxCheck0.cfg"
sh "$V/tools/tlc.sh" -workers 8 -metadir "$V/build/md-setup" -noGenerateSpecTE -config FxCheck0.cfg FxCheck.tla > "$V/build/fxcheck.log" 2>&1 || { tail -30 "$V/build/fxcheck.log"; exit 2; }
cd "$V/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$V/build/cargo"
cargo build --profile release --offline && cargo build --profile plain --offline
