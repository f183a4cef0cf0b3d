#!/bin/bash
# lib/seed.sh ID PROPERTY FILE PERL-EXPR NEEDS BREAKS < main.rs : makes seeded/ID from a change of one file of /repo (or, with
# FILE = -, from the diff in $PATCH), and confirms that its demonstration tells the two apart.
cd "$(dirname "$0")/.."
S=$PWD/seeded/$1
mkdir -p $S
cp harness/Cargo.lock $S/; mkdir -p $S/shims; cp -r harness/shims/salsa harness/shims/salsa-macros harness/shims/glob $S/shims/
case $TARGET in # p4analyzer, lsif: demo.py is on stdin; wasm: main.rs is
  "") { [ -z "$KIT" ] || cat lib/kit/$KIT.rs; cat; } > $S/main.rs; cp lib/kit/demo.sh $S/demo.sh ;;
  *) echo $TARGET > $S/target; cp lib/kit/proc.sh $S/demo.sh
    case $TARGET in wasm) { [ -z "$KIT" ] || cat lib/kit/$KIT.rs; cat; } > $S/main.rs; more="wasm-bindgen wasm-bindgen-macro js-sys wasm-bindgen-futures console_error_panic_hook" ;;
      *) { [ -z "$KIT" ] || cat lib/kit/$KIT.py; cat; } > $S/demo.py; more="xflags xflags-macros ctrlc tracing-appender" ;; esac
    for c in $more; do cp -r harness/shims/$c $S/shims/; done ;;
esac
M=/tmp/seedcopy-$1; rm -rf $M; git clone -q /repo $M
if [ "$3" = - ]; then cp "$PATCH" $S/patch.diff; git -C $M apply $S/patch.diff; else perl -0pi -e "$4" $M/$3; fi
git -C $M diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "$1: NO CHANGE"; exit 1; }
python3 - "$2" "$5" "$6" > $S/meta.json <<'P'
import json, sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1, ensure_ascii=False))
P
[ -n "$NODEMO" ] || {
(cd $M && bash $S/demo.sh) > $M.bad 2>&1; bad=$?
(cd /repo && bash $S/demo.sh) > $M.good 2>&1; good=$?
echo "$1: unchanged $good, changed $bad $([ $good = 0 ] && [ $bad != 0 ] && [ $bad != 2 ] && echo OK || echo BAD)"
tail -2 $M.bad
[ $good = 0 ] || tail -5 $M.good; }
rm -rf $M $M.bad $M.good
