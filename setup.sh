#!/bin/bash
# Builds every check once (each check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 2
. lib/ws.sh
make_ws
cd $WS && exec cargo build -q --offline $(cd $VERIF/harness/crates && for c in chk-*; do echo -p $c; done) -p p4-analyzer-bin -p lsif-p4
