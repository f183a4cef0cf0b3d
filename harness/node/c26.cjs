"use strict";
// C26: drives packages/p4-analyzer/src/server/index.ts (bundled by lib/c26.sh) with generated streams of framed messages.
// node c26.cjs BUNDLE [--replay FILE | --shard N FILE]
const fs = require("fs"), path = require("path"), { Readable, Writable } = require("stream"), cp = require("child_process"), crypto = require("crypto");
const fc = require("/opt/veriftools/node/node_modules/fast-check");
const ROOT = process.env.VERIF_ROOT || "/verif", SEED = Number(process.env.VERIF_SEED || 1) | 0, THOROUGH = process.env.VERIF_TIER === "thorough";
const SHARDS = 8, RUNS = THOROUGH ? 400000 : 8000; // per shard
const HANG_MS = 30000; // a case takes milliseconds
const bundle = process.argv[2];
const make = new Function("process", "require", "module", "exports", "__mock", fs.readFileSync(bundle, "utf8"));

// ---- generators -------------------------------------------------------------------------------------------------
const piece = fc.oneof(
	{ arbitrary: fc.string({ maxLength: 12 }), weight: 3 },
	{ arbitrary: fc.string({ unit: "binary", maxLength: 8 }), weight: 3 },
	{ arbitrary: fc.constantFrom("\r\n\r\n", "\r\n", "Content-Length: 3\r\n\r\n", "Content-Length: 99999\r\n\r\n", "Content-Length: ", "é", "日本", "😀", "\0", "\0\0\0\0", "{}", "\"", "\\"), weight: 3 },
	{ arbitrary: fc.tuple(fc.constantFrom("x", "é", "\0", "{\"a\":1},"), fc.oneof(fc.integer({ min: 1, max: 300 }), fc.constantFrom(500, 1000, 2000, 2020, 2047, 2048, 2049, 4096, 5000))).map(([s, n]) => s.repeat(n)), weight: 1 },
);
const body = fc.array(piece, { maxLength: 5 }).map((p) => p.join(""));
const headers = fc.constantFrom("L", "L", "L", "LT", "TL");
const frame = fc.record({ body, headers, raw: fc.boolean(), type: fc.constantFrom("application/vscode-jsonrpc; charset=utf-8", "application/vscode-jsonrpc;charset=utf8", "x") });
const cut = fc.oneof({ arbitrary: fc.integer({ min: 1, max: 4 }), weight: 2 }, { arbitrary: fc.integer({ min: 5, max: 60 }), weight: 3 },
	{ arbitrary: fc.integer({ min: 60, max: 3000 }), weight: 2 }, { arbitrary: fc.constantFrom(2047, 2048, 2049, 4096, 1 << 20), weight: 1 });
const scenario = fc.record({
	frames: fc.array(frame, { maxLength: 8 }),
	cuts: fc.oneof(fc.array(fc.record({ n: cut, off: fc.constantFrom(0, 0, 1, 7, 2048, 5000), tail: fc.constantFrom(0, 0, 9), wait: fc.boolean() }), { minLength: 1, maxLength: 40 }),
		fc.record({ n: fc.integer({ min: 1, max: 12 }), off: fc.constantFrom(0, 3), tail: fc.constant(0), wait: fc.constant(false) }).map((c) => [c])),
	rest: fc.nat({ max: 30 }), // bytes of a further, incomplete frame
	responses: fc.array(fc.record({ at: fc.nat({ max: 12 }), body }), { maxLength: 4 }),
	delays: fc.array(fc.nat({ max: 3 }), { minLength: 1, maxLength: 5 }),
});

function frameBytes(f) {
	const b = f.raw ? Buffer.from(f.body, "latin1") : Buffer.from(f.body.replace(/[\ud800-\udfff]/gu, "?"));
	const l = `Content-Length: ${b.length}\r\n`, t = `Content-Type: ${f.type}\r\n`;
	return [Buffer.from((f.headers === "L" ? l : f.headers === "LT" ? l + t : t + l) + "\r\n"), b];
}

function framesOf(bytes) {
	const out = [];
	let i = 0;
	while (i < bytes.length) {
		const e = bytes.indexOf("\r\n\r\n", i);
		if (e < 0) return { out, bad: `unterminated header in the output at byte ${i}` };
		const m = /(?:^|\r\n)Content-Length: (\d+)(?:\r\n|$)/i.exec(bytes.subarray(i, e).toString("latin1"));
		if (!m) return { out, bad: `no Content-Length in the output at byte ${i}` };
		const n = Number(m[1]);
		if (e + 4 + n > bytes.length) return { out, bad: `the output ends within an announced body of ${n} bytes` };
		out.push(bytes.subarray(e + 4, e + 4 + n));
		i = e + 4 + n;
	}
	return { out };
}

const tick = () => new Promise((r) => setImmediate(r));
const show = (b) => { const s = JSON.stringify(b.toString("latin1")); return s.length > 120 ? s.slice(0, 120) + `… (${b.length} bytes)` : s; };

async function run(sc) {
	const parts = sc.frames.map(frameBytes);
	const whole = Buffer.concat(parts.flat());
	const more = Buffer.from("Content-Length: 40\r\n\r\n{\"jsonrpc\":").subarray(0, sc.rest);
	const bytes = Buffer.concat([whole, more]);
	const want = parts.map((p) => p[1]);
	const wantOut = sc.responses.map((r) => Buffer.from(r.body.replace(/[\ud800-\udfff]/gu, "?")));
	const got = [], written = [], errors = [];
	let stopServer, stopped = 0, started = 0, respond;
	const mock = {
		LspServer: class {
			constructor(cb) { respond = cb; }
			start() { started++; return new Promise((r) => { stopServer = r; }); }
			stop() { stopped++; stopServer(); }
			async sendRequest(b) {
				got.push({ now: b && Buffer.from(b), ref: b });
				for (let i = sc.delays[got.length % sc.delays.length]; i > 0; i--) await tick();
			}
		},
	};
	const stdin = new Readable({ read() { } });
	const stdout = new Writable({ write(c, e, done) { written.push(typeof c === "string" ? Buffer.from(c, e) : Buffer.from(c)); done(); } });
	stdout.pause = () => stdout;
	stdin.on("error", (e) => errors.push(e));
	const fake = { stdin, stdout, stderr: process.stderr, on() { }, once() { }, env: {}, nextTick: process.nextTick };
	const module = { exports: {} };
	const caught = (e) => errors.push(e);
	process.on("uncaughtException", caught);
	process.on("unhandledRejection", caught);
	try {
		make(fake, require, module, module.exports, mock);
		const analyzer = new module.exports.default();
		let ended = false;
		analyzer.start().then(() => { ended = true; }, (e) => { errors.push(e); });
		for (let i = 0; i < 20 && !started; i++) await tick();
		if (!started) return "the server was not started";
		const pending = sc.responses.map((r, i) => ({ at: r.at, b: Buffer.from(wantOut[i]) })), order = [];
		const reply = (k) => { for (const p of pending.filter((p) => p.at <= k && !p.done)) { p.done = true; order.push(p.b); respond(p.b); } };
		let i = 0, k = 0;
		while (i < bytes.length) {
			const c = sc.cuts[k % sc.cuts.length];
			const n = Math.min(c.n, bytes.length - i);
			const pool = Buffer.alloc(c.off + n + c.tail, 0x2e);
			bytes.copy(pool, c.off, i, i + n);
			stdin.push(pool.subarray(c.off, c.off + n));
			i += n;
			reply(k++);
			if (c.wait) await tick();
			if (errors.length) break;
		}
		reply(1e9);
		let quiet = 0, last = -1;
		while (quiet < (got.length >= want.length ? 6 : 40)) {
			await tick();
			const now = got.length + stdin.readableLength * 1e6;
			quiet = now === last ? quiet + 1 : 0;
			last = now;
		}
		if (errors.length) return `error: ${errors[0] && errors[0].message}`;
		for (let j = 0; j < Math.max(got.length, want.length); j++) {
			if (j >= got.length) return `message ${j} ${show(want[j])} was not handed to the server`;
			if (j >= want.length) return `the server was handed an extra message ${show(got[j].now || Buffer.from("undefined"))}`;
			if (!got[j].now || !got[j].now.equals(want[j])) return `message ${j}: handed ${got[j].now ? show(got[j].now) : "nothing"}, sent ${show(want[j])}`;
			if (!Buffer.from(got[j].ref).equals(want[j])) return `message ${j} was changed after it had been handed over`;
		}
		const { out, bad } = framesOf(Buffer.concat(written));
		if (bad) return bad;
		for (let j = 0; j < Math.max(out.length, order.length); j++)
			if (!out[j] || !order[j] || !out[j].equals(order[j])) return `response ${j}: wrote ${out[j] ? show(out[j]) : "nothing"}, the server sent ${order[j] ? show(order[j]) : "nothing"}`;
		analyzer.stop();
		for (let j = 0; j < 10 && !ended; j++) await tick();
		if (stopped !== 1) return `stop was passed on ${stopped} times`;
		if (!ended) return "start() does not end after the server has stopped";
		return null;
	} catch (e) {
		return `error: ${e && e.message}`;
	} finally {
		process.off("uncaughtException", caught);
		process.off("unhandledRejection", caught);
	}
}

// What makes a case count: some frame is split over chunks, and some chunk holds parts of several frames.
function classify(sc) {
	const sizes = sc.frames.map((f) => { const p = frameBytes(f); return [p[0].length, p[1].length]; });
	const ends = []; let at = 0;
	for (const [h, b] of sizes) { at += h + b; ends.push(at); }
	const total = at + Math.min(sc.rest, 33), cuts = new Set(); let i = 0, k = 0, shared = false, pooled = false;
	while (i < total) {
		const c = sc.cuts[k++ % sc.cuts.length], e = Math.min(i + c.n, total);
		if (ends.some((x) => x > i && x < e)) shared = true;
		if (c.off > 0) pooled = true;
		i = e; cuts.add(i);
	}
	let start = 0, split = false;
	for (const e of ends) { for (const c of cuts) if (c > start && c < e) { split = true; break; } start = e; }
	const labels = [];
	if (split) labels.push("frame over several chunks");
	if (shared) labels.push("chunk with parts of several frames");
	if (pooled) labels.push("pooled chunk");
	if (sizes.some((s) => s[1] > 2048)) labels.push("body over 2048 bytes");
	if (sc.frames.some((f) => /[^\x00-\x7f]/.test(f.body))) labels.push("non-ASCII body");
	if (sc.frames.some((f) => /Content-Length|\r\n\r\n/.test(f.body))) labels.push("header-like body");
	if (sc.frames.some((f) => f.headers !== "L")) labels.push("further header");
	if (sc.responses.length) labels.push("responses");
	return { labels, nontrivial: sc.frames.length >= 2 && split && shared };
}

async function shard(n, file) {
	const res = { evaluations: 0, nontrivial: 0, labels: {}, hashes: [], samples: [], fail: null };
	const hashes = new Set();
	let failing = false;
	const until = Date.now() + (THOROUGH ? 3 * 3600e3 : 400e3);
	const cur = fs.openSync(file + ".cur", "w");
	const prop = fc.asyncProperty(scenario, async (sc) => {
		fs.ftruncateSync(cur); // what is running, should it never end
		fs.writeSync(cur, JSON.stringify(sc), 0);
		if (Date.now() > until) { res.truncated = true; return; }
		const why = await run(sc);
		if (!failing) {
			res.evaluations++;
			const c = classify(sc);
			for (const l of c.labels) res.labels[l] = (res.labels[l] || 0) + 1;
			if (c.nontrivial) {
				res.nontrivial++;
				hashes.add(crypto.createHash("md5").update(JSON.stringify(sc)).digest("hex").slice(0, 12));
				if (res.samples.length < 1 && res.nontrivial % 7 === 3) res.samples.push(JSON.stringify(sc).slice(0, 1200));
			}
		}
		if (why) { failing = true; throw new Error(why); }
	});
	const d = await fc.check(prop, { seed: SEED * 1000 + n, numRuns: RUNS, endOnFailure: false });
	if (d.failed) res.fail = { scenario: d.counterexample[0], msg: (d.errorInstance && d.errorInstance.message) || String(d.error), shrinks: d.numShrinks };
	res.hashes = [...hashes];
	fs.writeFileSync(file, JSON.stringify(res));
	process.exit(0);
}

async function main() {
	const started = Date.now();
	if (process.argv[3] === "--replay") {
		const why = await run(JSON.parse(fs.readFileSync(process.argv[4], "utf8")).scenario);
		console.log(why ? `FAILS ${why}` : "passes");
		process.exit(why ? 1 : 0);
	}
	if (process.argv[3] === "--shard") return shard(Number(process.argv[4]), process.argv[5]);
	const tmp = fs.mkdtempSync(path.join(require("os").tmpdir(), "c26-"));
	let crashed = false; // one such report is enough
	const all = await Promise.all([...Array(SHARDS).keys()].map((n) => new Promise((resolve) => {
		const f = path.join(tmp, `r${n}`);
		const c = cp.spawn(process.execPath, ["--max-old-space-size=1500", __filename, bundle, "--shard", n, f], { stdio: ["ignore", "ignore", "inherit"] });
		const timer = setInterval(() => {
			try { if (Date.now() - fs.statSync(f + ".cur").mtimeMs < HANG_MS) return; } catch { return; }
			c.kill("SIGKILL");
		}, 1000);
		c.on("exit", () => {
			clearInterval(timer);
			if (fs.existsSync(f)) return resolve(JSON.parse(fs.readFileSync(f, "utf8")));
			// killed, or it crashed: the case that ran counts if it does the same on its own
			if (crashed) return resolve({ evaluations: 1, nontrivial: 0, labels: {}, hashes: [], samples: [], fail: null });
			let sc;
			try { sc = JSON.parse(fs.readFileSync(f + ".cur", "utf8")); } catch { return resolve(null); }
			fs.writeFileSync(f + ".replay", JSON.stringify({ scenario: sc }));
			const again = cp.spawnSync(process.execPath, ["--max-old-space-size=1500", __filename, bundle, "--replay", f + ".replay"], { stdio: "ignore", timeout: HANG_MS, killSignal: "SIGKILL" });
			if (again.status === 0) return resolve(null);
			crashed = true;
			const msg = again.status === 1 ? "fails when run alone" : again.error ? "does not terminate" : "the process crashes";
			resolve({ evaluations: 1, nontrivial: 1, labels: {}, hashes: [], samples: [], fail: { scenario: sc, msg } });
		});
	})));
	fs.rmSync(tmp, { recursive: true, force: true });
	const ok = all.filter(Boolean), distinct = new Set(ok.flatMap((r) => r.hashes)).size, labels = {};
	for (const r of ok) for (const l in r.labels) labels[l] = (labels[l] || 0) + r.labels[l];
	const sum = (k) => ok.reduce((a, r) => a + r[k], 0);
	const rule = "at least two frames, one of them spread over several chunks, and a chunk holding parts of several frames";
	const fails = ok.filter((r) => r.fail).map((r) => r.fail).sort((a, b) => JSON.stringify(a.scenario).length - JSON.stringify(b.scenario).length);
	const coverage = { evaluations: sum("evaluations"), distinct_nontrivial: distinct, rule: `adapter: ${rule}`,
		samples: ok.flatMap((r) => r.samples).slice(0, 3).map((c) => ({ target: "adapter", case: c })),
		targets: [{ target: "adapter", rule, cases: sum("evaluations"), nontrivial: sum("nontrivial"), distinct_nontrivial: distinct, classes: labels }] };
	if (ok.some((r) => r.truncated)) coverage.truncated = "the time limit was reached before all planned cases had run";
	fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
	fs.writeFileSync(path.join(ROOT, "evidence/C26.json"), JSON.stringify({ property: "C26", tier: THOROUGH ? "thorough" : "quick", seed: SEED, level: "exploration",
		coverage, assumptions: ["the webassembly module is replaced by a stand-in that records what it is handed",
			"headers are Content-Length and, optionally, Content-Type, spelled as the protocol does; response bodies are valid UTF-8"],
		wall_s: (Date.now() - started) / 1000, violations: fails.length ? 1 : 0 }, null, 2));
	console.log(`C26: ${sum("evaluations")} cases, ${distinct} distinct non-trivial, ${((Date.now() - started) / 1000).toFixed(1)} s`);
	if (fails.length) {
		const file = path.join(ROOT, "replays/C26.json");
		fs.mkdirSync(path.dirname(file), { recursive: true });
		fs.writeFileSync(file, JSON.stringify({ property: "C26", scenario: fails[0].scenario, msg: fails[0].msg }, null, 2));
		console.log(`VIOLATION property=C26 replay=${file}\n  ${fails[0].msg}\n  case: ${JSON.stringify(fails[0].scenario).slice(0, 1500)}`);
		process.exit(1);
	}
	if (ok.length < SHARDS) { console.log("INCONCLUSIVE a shard gave no result"); process.exit(3); }
	process.exit(0);
}
main();
