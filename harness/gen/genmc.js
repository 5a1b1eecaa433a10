// A01: the generator. Explores (1) all histories of builds in one process up to a depth, (2) all interleavings of
// concurrent builds under a controlled completion order of the template engine, (3) command lines.
// Speaks the protocol of lib/mcx.hpp. usage: node genmc.js [--thorough] [--job NAME]
"use strict";
const path = require("path"), fs = require("fs"), os = require("os"), cp = require("child_process");
const NM = path.join(__dirname, "..", "..", "lib", "nm");
const repo = process.env.FFIASM || "/repo";
const thorough = process.argv.includes("--thorough");
const KEYS = ["asm", "hpp", "cpp", "element_hpp", "generic_cpp", "raw_generic_cpp", "raw_arm64_s"];
const P = JSON.parse(fs.readFileSync(path.join(NM, "..", "primes.json")));
const SPEC = {                       // name of the spec -> [prime, field name]
// names are shared between primes of different and of equal width
    gl: [P.gl, "Fp"], m127: [P.m127, "Fr"], fr: [P.bn128r, "Fr"], fq: [P.bn128q, "Fq"], bls: [P.bls381q, "Fq"], t7: ["7", "Fp"], sec: [P.secpq, "Fr"], mnt: [P.mnt6q, "Mnt"],
};

// ---- text up to the naming of internal labels -------------------------------------------
function canon(text) {
    const order = new Map();
    for (const m of text.matchAll(/^[ \t]*([A-Za-z_.$][\w.$]*):/gm)) if (!order.has(m[1])) order.set(m[1], 0);
    const pub = new Set();
    for (const m of text.matchAll(/^[ \t]*\.?global[ \t]+([\w.$]+)/gm)) pub.add(m[1]);
    let k = 0;
    for (const l of order.keys()) order.set(l, pub.has(l) ? l : "@" + k++);
    return text.replace(/[A-Za-z_.$][\w.$]*/g, (t) => order.has(t) ? order.get(t) : t);
}
const canonKey = (k, t) => (k === "asm" || k === "raw_arm64_s") ? canon(t) : t;
function hash(s) { return require("crypto").createHash("sha256").update(s).digest("hex"); }
function digest(out) { const r = {}; for (const k of KEYS) r[k] = typeof out[k] === "string" ? hash(canonKey(k, out[k])) : "missing"; return r; }
function diff(a, b) { return KEYS.filter((k) => a[k] !== b[k]); }

// ---- a worker: one process, its own module registry -----------------------------------------
function loadRepo() {
    process.env.NODE_PATH = NM;
    require("module").Module._initPaths();
    return require(path.join(repo, "index.js")).buildZqField;
}
async function freshDigest(spec) {      // in a process of its own
    const r = cp.spawnSync(process.execPath, [__filename, "--fresh", JSON.stringify(spec)], {env: process.env, maxBuffer: 1 << 28, timeout: 60000, killSignal: "SIGKILL"});
    if (r.error) throw new Error("generator gave no answer in 60 s for " + JSON.stringify(spec) + ": " + r.error.code);
    if (r.status !== 0) throw new Error("generator failed: " + r.stderr.toString().slice(-600));
    return JSON.parse(r.stdout.toString());
}

const jobs = [];
function job(name, fn) { jobs.push([name, fn]); }
class Ctx {
    constructor(name) { this.name = name; this.c = {evals: 0, states: 0, transitions: 0, nontrivial: 0, nviol: 0}; this.lines = []; this.seen = new Set(); this.samples = 0; }
    viol(key, text) { this.c.nviol++; if (this.seen.has(key)) return; this.seen.add(key); this.lines.push(`VIOL\t${this.name}\t${key}\t${text.replace(/[\t\n]/g, " ").slice(0, 900)}`); }
    sample(t) { if (this.samples++ < 2) this.lines.push(`SAMPLE\t${this.name}\t${t}`); }
}

// ---- (1) histories -----------------------------------------------------------------------
function forms(bigInt, prime) { return [["text", String(prime)], ["bigInt", bigInt(prime)], ["BigInt", BigInt(prime)]]; }
for (const first of Object.keys(SPEC)) job("history-" + first, async (c) => {
    const build = loadRepo();
    const bigInt = require("big-integer");
    const ref = {};
    for (const s of Object.keys(SPEC)) ref[s] = await freshDigest(SPEC[s]);
    const set = Object.keys(SPEC);
    const depth = thorough ? 3 : 2;
    // the process keeps all history: every sequence of the depth occurs as a suffix of what was built before
    const seqs = [[]];
    for (let d = 0; d < depth; d++) for (const s of seqs.filter((x) => x.length === d)) for (const n of set) seqs.push([...s, n]);
    let f = 0;
    for (const q of seqs) {
        const h = [first, ...q];
        if (q.length !== depth) continue;
        for (const s of h) {
            const fs_ = forms(bigInt, SPEC[s][0]);
            const [fn, v] = fs_[f++ % fs_.length];
            const d = diff(digest(await build(v, SPEC[s][1])), ref[s]);
            c.c.evals++; c.c.transitions++;
            if (d.length) c.viol("history:" + d.join("+"), `after building ${h.join(", ")}: ${s} (given as ${fn}) differs from a fresh build in ${d.join(", ")}`);
        }
        c.c.states++; c.c.nontrivial++;
    }
    c.sample(`every sequence of ${depth} builds after ${first} in one process, compared with fresh processes`);
});

// ---- names are only prefixes -----------------------------------------------------------------
job("names", async (c) => {
    const build = loadRepo();
    for (const [sn, [prime]] of Object.entries(SPEC)) {
        const base = await build(prime, "Qqxz");
        for (const nm of ["Fr", "Fq", "F", "Zz9", "BLS12381Fq", "aB", "x", "Field_1", "FrElem", "RawFr"]) {
            const out = await build(prime, nm);
            for (const k of KEYS) {
                const want = base[k].replace(/Qqxz/g, nm).replace(/QQXZ/g, nm.toUpperCase()).replace(/qqxz/g, nm.toLowerCase());
                c.c.evals++; c.c.transitions++;
                if (canonKey(k, want) !== canonKey(k, out[k])) c.viol("name:" + k, `${sn}: the text for name ${nm} is not the text for another name with the name replaced`);
            }
            c.c.states++; c.c.nontrivial++;
        }
    }
    c.sample("10 names x 8 primes: same text with the name replaced");
});

// ---- (2) concurrent builds ---------------------------------------------------------------------
// Every pending template result is held back; the explorer decides whose is delivered next.
const tick = () => new Promise((r) => setImmediate(r));
async function interleave(c, specs, mode, order, ref, build, ejs) {
    const pend = specs.map(() => []);
    const owner = new Map();
    const orig = ejs.orig || (ejs.orig = ejs.renderFile);
    let starting = -1;
    ejs.renderFile = (file, data, opts, cb) => {
        if (typeof data === "function") { cb = data; data = {}; opts = undefined; }
        if (typeof opts === "function") { cb = opts; opts = undefined; }
        let promised;
        if (!cb) promised = new Promise((ok, ko) => { cb = (e, r) => e ? ko(e) : ok(r); });
        if (!owner.has(data)) owner.set(data, starting);
        const o = owner.get(data);
        const run = () => { let e, r; orig(file, data, (x, y) => { e = x; r = y; }); return [e, r]; };
        const early = mode === "call" ? run() : null;
        pend[o < 0 ? 0 : o].push(() => cb(...(early || run())));
        return promised;
    };
    const done = specs.map(() => null);
    specs.forEach((s, i) => { starting = i; build(SPEC[s][0], SPEC[s][1]).then((o) => { done[i] = {out: o}; }, (e) => { done[i] = {err: e}; }); });
    starting = -1;
    await tick();
    const taken = [];
    for (let step = 0; ; step++) {
        const ready = specs.map((_, i) => i).filter((i) => pend[i].length);
        if (!ready.length) break;
        const want = step < order.length ? order[step] : ready[0];
        const pick = ready.includes(want) ? want : ready[0];
        taken.push([pick, ready]);
        pend[pick].shift()();
        await tick();
        c.c.transitions++;
    }
    c.c.evals++; c.c.states += taken.length;
    let switches = 0;
    for (let i = 1; i < taken.length; i++) if (taken[i][0] !== taken[i - 1][0]) switches++;
    if (switches > 1) c.c.nontrivial++;
    specs.forEach((s, i) => {
        const how = `${specs.join(" and ")} at once, results delivered in the order ${taken.map((t) => t[0]).join("")} (${mode})`;
        if (!done[i]) c.viol("concurrent:unfinished", how);
        else if (done[i].err) c.viol("concurrent:error", how + ": " + done[i].err);
        else { const d = diff(digest(done[i].out), ref[s]); if (d.length) c.viol("concurrent:" + d.join("+"), `${how}: ${s} differs in ${d.join(", ")}`); }
    });
    return taken;
}
function concurrent(specs, mode, maxSwitch) {
    job(`concurrent-${specs.join("-")}-${mode}`, async (c) => {
        process.env.NODE_PATH = NM; require("module").Module._initPaths();
        const ejs = require("ejs");
        // the generator may take renderFile at load time: give it a relay
        const relay = {f: ejs.renderFile}; const orig = ejs.renderFile;
        ejs.renderFile = (...a) => relay.f(...a);
        const build = loadRepo();
        const box = {orig, get renderFile() { return relay.f; }, set renderFile(f) { relay.f = f; }};
        const ref = {};
        relay.f = orig;
        for (const s of specs) if (!ref[s]) ref[s] = await freshDigest(SPEC[s]);
        // depth-first over delivery orders, by re-execution
        let order = [], n = 0;
        const t0 = Date.now();
        for (;;) {
            const taken = await interleave(c, specs, mode, order, ref, build, box);
            n++;
            if (Date.now() - t0 > (thorough ? 2400000 : 240000)) { c.capped = 1; break; }
            let i = taken.length - 1;
            const sw = [0];
            for (let k = 1; k < taken.length; k++) sw[k] = sw[k - 1] + (taken[k][0] !== taken[k - 1][0] && taken[k][1].includes(taken[k - 1][0]) ? 1 : 0);
            for (; i >= 0; i--) {
                const [p, ready] = taken[i];
                const next = ready.find((r) => r > p);
                if (next === undefined) continue;
                const cost = (i ? sw[i - 1] : 0) + (i && taken[i - 1][0] !== next && ready.includes(taken[i - 1][0]) ? 1 : 0);
                if (cost > maxSwitch) continue;
                order = taken.slice(0, i).map((t) => t[0]).concat(next);
                break;
            }
            if (i < 0) break;
        }
        c.sample(`${specs.length} builds at once (${specs.join(", ")}): ${n} delivery orders, at most ${maxSwitch} switches (${mode} time rendering)`);
    });
}
for (const mode of ["call", "delivery"]) {
    for (const p of [["t7", "gl"], ["gl", "m127"], ["fr", "fq"], ["gl", "gl"]]) concurrent(p, mode, thorough ? 13 : p[0] === "fr" ? 2 : 3);
    concurrent(["t7", "gl", "m127"], mode, thorough ? 3 : 1);
}

// ---- (3) command lines ------------------------------------------------------------------------------
function tree(d, pre = "") {
    const r = {};
    for (const e of fs.readdirSync(d, {withFileTypes: true})) {
        if (e.isDirectory()) Object.assign(r, tree(path.join(d, e.name), pre + e.name + "/"));
        else r[pre + e.name] = fs.readFileSync(path.join(d, e.name), "utf8");
    }
    return r;
}
const FILE = {asm: ".asm", hpp: ".hpp", cpp: ".cpp", element_hpp: "_element.hpp", generic_cpp: "_generic.cpp", raw_generic_cpp: "_raw_generic.cpp", raw_arm64_s: "_raw_arm64.s"};
for (const sn of thorough ? Object.keys(SPEC) : ["t7", "gl", "fr", "bls"]) job("command-" + sn, async (c) => {
    const [prime, name] = SPEC[sn];
    const ref = await freshDigest(SPEC[sn]);
    const ask = [["-q", prime], ["-q=" + prime], ["--q", prime], ["--prime", prime], ["--prime=" + prime]];
    const call = [["-n", name], ["-n=" + name], ["--name", name], ["--name=" + name]];
    const outs = {oa: ["out.asm", "sub/o.asm"], oh: ["out.hpp", "sub/o.h"], oc: ["out.cpp", "sub/o.cc"]};
    const cases = [];
    for (const a of ask) for (const b of call) cases.push([[a, b], {}], [[b, a], {}]);
    for (let m = 1; m < 8; m++) for (let v = 0; v < 8; v++) {
        const o = {}; let skip = false;
        ["oa", "oh", "oc"].forEach((k, i) => { if (m >> i & 1) o[k] = outs[k][v >> i & 1]; else if (v >> i & 1) skip = true; });
        if (skip) continue;
        const flags = Object.entries(o).map(([k, x], i) => i % 2 ? ["--" + k + "=" + x] : ["--" + k, x]);
        cases.push([[ask[0], call[0], ...flags], o], [[...flags, ask[2], call[1]], o]);
    }
    for (const [argv, o] of cases) {
        const dir = fs.mkdtempSync(path.join(os.tmpdir(), "genmc-"));
        try {
            fs.mkdirSync(path.join(dir, "sub"));
            const args = argv.flat();
            const r = cp.spawnSync(process.execPath, [path.join(repo, "src/buildzqfield.js"), ...args], {cwd: dir, env: Object.assign({}, process.env, {NODE_PATH: NM}), maxBuffer: 1 << 26, timeout: 60000, killSignal: "SIGKILL"});
            const how = "buildzqfield " + args.join(" ").replace(prime, "PRIME");
            c.c.evals++; c.c.states++; c.c.transitions += 7; if (Object.keys(o).length) c.c.nontrivial++;
            if (r.error) { c.viol("command:hang", `${how}: no answer in 60 s`); return; }
            if (r.status !== 0) { c.viol("command:status", `${how}: exit ${r.status} ${r.stderr.toString().slice(-300)}`); continue; }
            const t = tree(dir);
            const names = Object.keys(t);
            if (names.length !== 7) c.viol("command:files", `${how}: ${names.length} files: ${names.sort().join(" ")}`);
            const at = {asm: o.oa, hpp: o.oh, cpp: o.oc};
            for (const k of KEYS) {
                const asked = k in at && at[k] ? at[k] : Object.keys(o).length ? null : name.toLowerCase() + FILE[k];
                if (asked) {
                    if (!(asked in t)) c.viol("command:missing-" + k, `${how}: no ${asked} among ${names.join(" ")}`);
                    else if (hash(canonKey(k, t[asked])) !== ref[k]) c.viol("command:content-" + k, `${how}: ${asked} does not hold the ${k} text`);
                } else if (!names.some((n) => hash(canonKey(k, t[n])) === ref[k])) c.viol("command:lost-" + k, `${how}: no file holds the ${k} text`);
            }
        } finally { fs.rmSync(dir, {recursive: true, force: true}); }
    }
    c.sample(`${cases.length} command lines for ${sn}: spellings of the arguments, subsets of the output options`);
});

// ---- driver -------------------------------------------------------------------------------------------
async function runJob(name) {
    const c = new Ctx(name);
    const t0 = Date.now();
    try { await jobs.find((j) => j[0] === name)[1](c); }
    catch (e) { c.viol("generator:error", String(e && e.stack || e)); }
    for (const l of c.lines) console.log(l);
    console.log(`JOB\t${name}\tevals=${c.c.evals} states=${c.c.states} transitions=${c.c.transitions} nontrivial=${c.c.nontrivial} nviol=${c.c.nviol} capped=${c.capped || 0} wall=${((Date.now() - t0) / 1000).toFixed(2)}`);
}
const arg = (n) => { const i = process.argv.indexOf(n); return i < 0 ? null : process.argv[i + 1]; };
if (arg("--fresh")) {
    const [prime, name] = JSON.parse(arg("--fresh"));
    loadRepo()(prime, name).then((o) => console.log(JSON.stringify(digest(o))), (e) => { console.error(e); process.exit(3); });
} else if (arg("--inner")) {
    runJob(arg("--inner")).then(() => process.exit(0));
} else {
    const only = arg("--job");
    const list = jobs.map((j) => j[0]).filter((n) => !only || n === only);
    let live = 0, next = 0;
    const running = new Set();
    const pump = () => {
        while (live < 8 && next < list.length) {
            const n = list[next++];
            live++;
            const p = cp.spawn(process.execPath, ["--stack-size=4000", __filename, "--inner", n, ...(thorough ? ["--thorough"] : [])], {stdio: ["ignore", "pipe", "inherit"]});
            let out = "";
            p.stdout.on("data", (d) => { out += d; });
            let late = false;
            running.add(p);
            const limit = setTimeout(() => { late = true; p.kill("SIGKILL"); }, thorough ? 3000000 : 200000);
            p.on("close", (code, sig) => {
                clearTimeout(limit);
                running.delete(p);
                if (sig && p.dropped) { live--; pump(); return; }
                process.stdout.write(out);
                if (late || /gave no answer/.test(out)) {       // a generator that hangs: what the other jobs would say takes too long
                    next = list.length;
                    for (const x of running) { x.dropped = true; x.kill("SIGKILL"); }
                }
                if (code !== 0) process.stdout.write(`CRASH\t${n}\t${late ? "no-answer" : "exit-" + (sig || code)}\t\nJOB\t${n}\tevals=0\n`);
                live--; pump();
            });
        }
        if (!live && next >= list.length) process.stdout.write("ALLDONE\n");
    };
    pump();
}
