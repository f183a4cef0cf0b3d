#!/bin/bash
# C26: bundles the adapter from /repo's working tree, with a stand-in for the webassembly module, and runs the check.
cd "$(dirname "$0")/.." || exit 2
. lib/ws.sh
shift
export VERIF_ROOT=$VERIF
mkdir -p $BUILD/node
cat > $BUILD/node/build.cjs <<'J'
require("/opt/veriftools/node/node_modules/esbuild").build({
	entryPoints: [process.argv[2]], bundle: true, platform: "node", format: "cjs", outfile: process.argv[3], logLevel: "error",
	plugins: [{ name: "wasm", setup(b) {
		b.onResolve({ filter: /p4_analyzer_wasm/ }, () => ({ path: "wasm", namespace: "mock" }));
		b.onLoad({ filter: /.*/, namespace: "mock" }, () => ({ contents: "module.exports = __mock;" }));
	} }],
}).catch(() => process.exit(1));
J
if ! node $BUILD/node/build.cjs $REPO/packages/p4-analyzer/src/server/index.ts $BUILD/node/adapter.cjs; then
  echo "BUILD FAILED: adapter"; exit 2
fi
exec node harness/node/c26.cjs $BUILD/node/adapter.cjs "$@"
