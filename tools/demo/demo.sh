#!/bin/bash
# Run with the repository as current directory. Exit 0: the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
export CARGO_TARGET_DIR=$work/target
mkdir -p "$work/src"
cp "$here/main.rs" "$here/mock.rs" "$work/src/"
cp "$here/Cargo.lock" "$work/"
cat >"$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
async-smtp = { path = "$repo", default-features = false }
log = "0.4"
tokio = { version = "1", default-features = false, features = ["io-util"], optional = true }
futures-io = { version = "0.3", optional = true }
[features]
tk = ["async-smtp/runtime-tokio", "tokio"]
as = ["async-smtp/runtime-async-std", "futures-io"]
[lints.rust]
unexpected_cfgs = { level = "allow" }
[workspace]
END
cd "$work" || exit 2
cargo build -q --offline --no-default-features --features @RT@ || exit 3
timeout 60 "$work/target/debug/demo"
