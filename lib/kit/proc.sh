#!/bin/bash
# Builds p4analyzer, lsif-p4 and the WebAssembly glue (whatever demo.py or main.rs beside it needs) from the working directory, and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p $W/crates
printf '[workspace]\nresolver = "2"\nmembers = ["crates/*"]\n' > $W/Cargo.toml
crate() { # NAME DIRECTORY SED-EXPR...
  local n=$1 d=$2; shift 2
  mkdir -p $W/crates/$n; ln -s $R/crates/$d/src $W/crates/$n/src
  awk '/^\[/{skip=($0 ~ /^\[(dev-dependencies|\[bench|\[bin|lib)/)} !skip' $R/crates/$d/Cargo.toml |
    sed -E -e 's#^salsa *=.*#salsa = { path = "../salsa", package = "salsa-2022" }#' "$@" > $W/crates/$n/Cargo.toml
}
for c in analyzer-abstractions analyzer-core analyzer-host; do crate $c $c; done
crate p4-analyzer p4-analyzer -e '/^(xflags|async-thread|ctrlc|tracing-appender) *=/d' -e 's#^edition = "2021"#&\nautobins = false#' -e 's#^glob *=.*#glob = { path = "../glob" }#'
case $(cat $D/target) in
  p4analyzer)
    crate p4-analyzer-bin p4-analyzer -e '/^async-thread *=/d' -e 's/^name = "p4-analyzer"/name = "p4-analyzer-bin"/' -e 's#^(xflags|ctrlc|tracing-appender|glob) *=.*#\1 = { path = "../\1" }#'
    awk '/^\[\[bin/{on=1} /^\[/&&!/^\[\[bin/{on=0} on' $R/crates/p4-analyzer/Cargo.toml >> $W/crates/p4-analyzer-bin/Cargo.toml
    P=p4-analyzer-bin ;;
  lsif) crate lsif-p4 lsif-p4 -e 's#^xflags *=.*#xflags = { path = "../xflags" }#' -e 's#^lsp-types *=.*#lsp-types = "0.93"#'; P=lsif-p4 ;;
  wasm)
    crate p4-analyzer-wasm p4-analyzer-wasm -e 's#^(js-sys|wasm-bindgen|wasm-bindgen-futures|console_error_panic_hook) *=.*#\1 = { path = "../\1" }#'
    mkdir -p $W/crates/demo/src; cp $D/main.rs $W/crates/demo/src/main.rs
    { printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
      grep '^//- ' $D/main.rs | cut -c5-; } > $W/crates/demo/Cargo.toml
    P=demo ;;
esac
for c in $D/shims/*; do cp -r $c $W/crates/; sed -i 's#\.\./shim-#../#' $W/crates/$(basename $c)/Cargo.toml; done
cp $D/Cargo.lock $W/Cargo.lock
cd $W && cargo build -q --offline -p $P || exit 2
if [ $P = demo ]; then timeout ${LIMIT:-60} $W/target/debug/demo; else timeout ${LIMIT:-60} python3 -B $D/demo.py $W/target/debug $W; fi
