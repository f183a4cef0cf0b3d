# Sourced by ./check: environment, and the side workspace in which /repo's crates are compiled from its working tree.
# salsa-2022 and glob are not available offline: /verif/harness/shims stands in for them.
REPO=${VERIF_REPO:-/repo}
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
BUILD=${VERIF_BUILD:-$VERIF/.build}
WS=$BUILD/ws
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$BUILD/target CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin

put() { # write stdin to FILE only if that changes it
  mkdir -p "$(dirname "$1")"; cat > "$1.new"
  if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv -f "$1.new" "$1"; fi
}

make_ws() {
  local C=$REPO/crates c
  mkdir -p $WS/crates
  { echo '[workspace]'; echo 'resolver = "2"'; echo 'members = ["crates/*"]'; cat $VERIF/harness/profile.toml; } | put $WS/Cargo.toml
  # manifests: the repo's own, without dev-dependencies, benches and what is not there offline
  for c in analyzer-abstractions analyzer-core analyzer-host p4-analyzer; do
    mkdir -p $WS/crates/$c
    ln -sfn $C/$c/src $WS/crates/$c/src
    awk '/^\[/{skip=($0 ~ /^\[(dev-dependencies|\[bench|\[bin)/)} !skip' $C/$c/Cargo.toml |
      sed -E -e '/^(xflags|async-thread|ctrlc|tracing-appender) *=/d' \
        -e "s#^salsa *=.*#salsa = { path = \"../shim-salsa\", package = \"salsa-2022\" }#" \
        -e "s#^glob *=.*#glob = { path = \"../shim-glob\" }#" | put $WS/crates/$c/Cargo.toml
  done
  sed -i 's/^edition = "2021"$/&\nautobins = false/' $WS/crates/p4-analyzer/Cargo.toml
  # analyzer-abstractions once more, with a `std` whose locks and atomics are scheduled by the harness
  mkdir -p $WS/crates/sched-abstractions
  ln -sfn $C/analyzer-abstractions/src $WS/crates/sched-abstractions/src
  awk '{print} /^\[dependencies\]/{print "std = { path = \"../shim-sched-std\", package = \"sched-std\" }"}' $WS/crates/analyzer-abstractions/Cargo.toml |
    sed 's/^name = "analyzer-abstractions"/name = "sched-abstractions"/' | put $WS/crates/sched-abstractions/Cargo.toml
  # and the buffer driver, with time scheduled as well
  mkdir -p $WS/crates/sched-driver
  ln -sfn $C/p4-analyzer/src $WS/crates/sched-driver/src
  sed -e 's/^name = "p4-analyzer"/name = "sched-driver"/' -e 's#^async-std *=.*#async-std = { path = "../shim-sched-async-std", package = "sched-async-std" }#' \
    -e 's#^\[dependencies\]#&\nstd = { path = "../shim-sched-std", package = "sched-std" }#' $WS/crates/p4-analyzer/Cargo.toml | put $WS/crates/sched-driver/Cargo.toml
  # the p4analyzer program
  mkdir -p $WS/crates/p4-analyzer-bin
  ln -sfn $C/p4-analyzer/src $WS/crates/p4-analyzer-bin/src
  awk '/^\[/{skip=($0 ~ /^\[dev-dependencies/)} !skip' $C/p4-analyzer/Cargo.toml |
    sed -E -e '/^async-thread *=/d' -e 's/^name = "p4-analyzer"/name = "p4-analyzer-bin"/' -e 's/^edition = "2021"$/&\nautobins = false/' \
        -e 's#^(xflags|ctrlc|tracing-appender|glob) *=.*#\1 = { path = "../shim-\1" }#' | put $WS/crates/p4-analyzer-bin/Cargo.toml
  # the WebAssembly server, built for this machine
  mkdir -p $WS/crates/p4-analyzer-wasm
  ln -sfn $C/p4-analyzer-wasm/src $WS/crates/p4-analyzer-wasm/src
  awk '/^\[/{skip=($0 ~ /^\[(dev-dependencies|lib)/)} !skip' $C/p4-analyzer-wasm/Cargo.toml |
    sed -E -e 's#^(js-sys|wasm-bindgen|wasm-bindgen-futures|console_error_panic_hook) *=.*#\1 = { path = "../shim-\1" }#' | put $WS/crates/p4-analyzer-wasm/Cargo.toml
  # the LSIF dump
  mkdir -p $WS/crates/lsif-p4
  ln -sfn $C/lsif-p4/src $WS/crates/lsif-p4/src
  awk '/^\[/{skip=($0 ~ /^\[dev-dependencies/)} !skip' $C/lsif-p4/Cargo.toml |
    sed -E -e 's#^xflags *=.*#xflags = { path = "../shim-xflags" }#' -e 's#^lsp-types *=.*#lsp-types = "0.93"#' | put $WS/crates/lsif-p4/Cargo.toml
  for c in wasm-bindgen wasm-bindgen-macro js-sys wasm-bindgen-futures console_error_panic_hook salsa salsa-macros glob sched-std sched-async-std xflags xflags-macros ctrlc tracing-appender; do ln -sfn $VERIF/harness/shims/$c $WS/crates/shim-$c; done
  for c in $VERIF/harness/crates/*; do ln -sfn $c $WS/crates/$(basename $c); done
  cp $VERIF/harness/Cargo.lock $WS/Cargo.lock
}
