#!/bin/bash
# run with cwd = the repository, after the build; exit 0 = behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
imagequant = { path = "$repo" }
imagequant-sys = { path = "$repo/imagequant-sys" }
rgb = "0.8"
[profile.dev]
opt-level = 1
E
cd "$t" || exit 99
# the legal twin compiles (dependencies and API are there) ...
cargo check --offline -q --target-dir "$t/target" || exit 98
# ... and the program that outlives the borrowed pixels does not
if cargo rustc --offline -q --profile check --target-dir "$t/target" -- --cfg bad 2> "$t/err"; then
  echo "a background outlives the pixels it borrows, in safe code"; exit 1
fi
grep -q 'does not live long enough' "$t/err" || { head -20 "$t/err"; exit 97; }
exit 0
