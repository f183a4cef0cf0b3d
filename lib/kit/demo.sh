#!/bin/bash
# Builds the demonstration beside it against the crates of the working directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p $W/crates
printf '[workspace]\nresolver = "2"\nmembers = ["crates/*"]\n' > $W/Cargo.toml
for c in analyzer-abstractions analyzer-core analyzer-host p4-analyzer; do
  mkdir -p $W/crates/$c; ln -s $R/crates/$c/src $W/crates/$c/src
  awk '/^\[/{skip=($0 ~ /^\[(dev-dependencies|\[bench|\[bin)/)} !skip' $R/crates/$c/Cargo.toml |
    sed -E -e '/^(xflags|async-thread|ctrlc|tracing-appender) *=/d' -e 's#^edition = "2021"#&\nautobins = false#' \
      -e 's#^salsa *=.*#salsa = { path = "../salsa", package = "salsa-2022" }#' -e 's#^glob *=.*#glob = { path = "../glob" }#' > $W/crates/$c/Cargo.toml
done
for c in salsa salsa-macros glob; do cp -r $D/shims/$c $W/crates/$c; done
sed -i 's#\.\./shim-#../#' $W/crates/salsa/Cargo.toml $W/crates/salsa-macros/Cargo.toml $W/crates/glob/Cargo.toml
mkdir -p $W/crates/demo/src; cp $D/main.rs $W/crates/demo/src/main.rs
{ printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
  grep '^//- ' $D/main.rs | cut -c5-; } > $W/crates/demo/Cargo.toml
cp $D/Cargo.lock $W/Cargo.lock
cd $W && cargo build -q --offline -p demo || exit 2
timeout ${LIMIT:-60} $W/target/debug/demo
