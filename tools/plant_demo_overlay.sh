#!/bin/bash
# Builds a small program against the crates in the current directory and runs it. The commit lacks
# keramics-compression/src/lzxpress.rs: a copy with a stand-in for it is what is built.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/demo/src" "$work/repo"
for f in Cargo.toml Cargo.lock; do cp "$repo/$f" "$work/repo/$f"; done
for d in "$repo"/keramics-* "$repo/docs"; do
  mkdir -p "$work/repo/$(basename "$d")"
  (cd "$d" && tar cf - --exclude=target --exclude=test_data .) | tar xf - -C "$work/repo/$(basename "$d")"
done
cp -r "$repo/fuzz" "$work/repo/fuzz" 2>/dev/null || true
if [ ! -e "$work/repo/keramics-compression/src/lzxpress.rs" ]; then
cat > "$work/repo/keramics-compression/src/lzxpress.rs" <<'RS'
use keramics_core::ErrorTrace;
pub struct LzxpressContext { pub uncompressed_data_size: usize }
impl LzxpressContext {
    pub fn new() -> Self { Self { uncompressed_data_size: 0 } }
    pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("Not available"))
    }
}
pub struct LzxpressHuffmanContext { pub uncompressed_data_size: usize }
impl LzxpressHuffmanContext {
    pub fn new() -> Self { Self { uncompressed_data_size: 0 } }
    pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(keramics_core::error_trace_new!("Not available"))
    }
}
RS
fi
cp "$here/main.rs" "$work/demo/src/main.rs"
cat > "$work/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[workspace]

[dependencies]
@DEPS@
TOML
cp "$repo/Cargo.lock" "$work/demo/Cargo.lock" 2>/dev/null || true
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet --manifest-path "$work/demo/Cargo.toml" 2>"$work/log" || { cat "$work/log" >&2; exit 3; }
cd "$work"
timeout 60 "$work/target/debug/demo"
