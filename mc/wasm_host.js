// Runs the browser binding in node: reads one request per line
// ({fresh, calls: [[arg...]...]}), answers with one line.
"use strict";
const realfs = require("fs");
const [, , wasmFile, execFile] = process.argv;
const swallow = Object.create(realfs, {
	writeSync: { value: (fd, buf) => buf.length },
	write: { value: (fd, buf, off, len, pos, cb) => cb(null, len) },
});
globalThis.require = require;
globalThis.fs = swallow;
globalThis.path = require("path");
globalThis.performance ??= require("perf_hooks").performance;
globalThis.crypto ??= require("crypto");
require(execFile);
const mod = new WebAssembly.Module(realfs.readFileSync(wasmFile));
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

async function instance() {
	delete globalThis.parseKuneiform;
	const go = new Go();
	let ended = false;
	go.exit = () => { ended = true; };
	go.run(await WebAssembly.instantiate(mod, go.importObject)).then(() => { ended = true; }, () => { ended = true; });
	for (let i = 0; i < 5000 && typeof globalThis.parseKuneiform !== "function" && !ended; i++) await sleep(1);
	if (typeof globalThis.parseKuneiform !== "function") throw new Error("parseKuneiform is not defined");
	return { call: globalThis.parseKuneiform, ended: () => ended };
}

const special = {
	undefined: undefined, null: null, nan: NaN, one: 1, big: 12345678901234567890n, yes: true, no: false, object: {}, array: ["database d;"],
	function: () => "database d;", symbol: Symbol("s"), boxed: new String("database d;"), date: new Date(0), tostring: { toString: () => "database d;" },
};
const value = (a) => (typeof a === "string" ? a : special[a.v]);

function answer(inst, args, kept) {
	let r;
	try {
		r = inst.call(...args.map(value));
	} catch (e) {
		return { kind: "throw", text: String(e) };
	}
	if (inst.ended()) return { kind: "ended" };
	kept.push(r);
	return read(r);
}

function read(r) {
	if (typeof r === "string") return { kind: "string", text: r };
	if (r === null || typeof r !== "object") return { kind: String(r) };
	const o = { kind: "object", keys: Object.keys(r).sort() };
	for (const k of ["json", "error"]) {
		if (r[k] === undefined || r[k] === null) o[k] = "";
		else if (typeof r[k] === "string") o[k] = r[k];
		else return { kind: k + " is a " + typeof r[k] };
	}
	return o;
}

let shared;
async function handle(line) {
	const q = JSON.parse(line);
	let out = [];
	try {
		if (!q.fresh && !shared) shared = await instance();
		const inst = q.fresh ? await instance() : shared;
		const kept = [];
		for (const c of q.calls) {
			out.push(answer(inst, c, kept));
			if (q.pause) await sleep(0);
			// what the page does with an answer must not show in later ones
			const r = kept[kept.length - 1];
			if (q.scribble && r !== null && typeof r === "object") { r.json = "scribbled"; r.error = "scribbled"; r.extra = "scribbled"; }
		}
		// later calls must not change earlier answers
		for (let i = 0; i < kept.length && !q.scribble; i++) {
			const now = read(kept[i]);
			if (JSON.stringify(now) !== JSON.stringify(out[i])) out[i] = { kind: "throw", text: "the answer is changed by later calls to " + JSON.stringify(now) };
		}
		if (!q.fresh && shared.ended()) shared = undefined;
	} catch (e) {
		out.push({ kind: "throw", text: String(e) });
	}
	realfs.writeSync(1, JSON.stringify(out) + "\n");
}

let todo = Promise.resolve();
require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity })
	.on("line", (l) => { todo = todo.then(() => handle(l)); })
	.on("close", () => { todo = todo.then(() => process.exit(0)); });
