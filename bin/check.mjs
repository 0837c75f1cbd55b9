// node bin/check.mjs <property>: decides one property. Exit 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn } from "node:child_process";
import { runTlc, VERIF } from "../lib/tlc.mjs";
import { bundle, buildExtra, transpileTree, COMMON, REPO } from "../lib/bundle.mjs";
import { Graph, rngOf } from "../lib/graph.mjs";

process.env.TZ = "UTC";
const id = process.argv[2];
const only = process.argv[3];
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
const t0 = Date.now();
const def = (await import(path.join(VERIF, "checks", `${id}.mjs`))).default;
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
const evid = process.env.VERIF_EVID ?? path.join(VERIF, "evidence");
fs.mkdirSync(path.join(evid, "replay"), { recursive: true });
const known = JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).filter((k) => k.property === id && k.status === "known");
const cleanup = () => { if (!process.env.VERIF_KEEP) fs.rmSync(tmp, { recursive: true, force: true }); else console.error("kept", tmp); };

class CheckError extends Error {}
const subset = (pat, v) => {
  if (pat === null || typeof pat !== "object") return JSON.stringify(pat) === JSON.stringify(v);
  if (v === null || typeof v !== "object") return false;
  return Object.keys(pat).every((k) => subset(pat[k], v[k]));
};
const findingFor = (suite, action, observed) => known.find((k) => k.suite === suite && subset(k.action, action) && (observed === undefined || k.observed === undefined || subset(k.observed, observed)));

const violations = [];
const knownHit = new Map();
const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [], suites: {} };
const tierOf = (x) => (x && typeof x === "object" && ("quick" in x || "thorough" in x) ? (x[tier] ?? x.quick) : x);

function violation(suite, data, summary) {
  const f = path.join(evid, "replay", `${id}-${suite}-${violations.length}.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, suite, seed, tier, ...data }, null, 1));
  violations.push({ f, summary });
}
function nodeRun(driver, args, timeoutS) {
  return new Promise((resolve) => {
    const p = spawn(process.execPath, [...(process.env.VERIF_PROF ? ["--cpu-prof", "--cpu-prof-dir=/tmp/prof"] : []), "--no-warnings", "--max-old-space-size=6000", driver, ...args], {
      cwd: tmp,
      env: { PATH: process.env.PATH, HOME: tmp, TZ: "UTC", NODE_PATH: path.join(COMMON, "node_modules"), VERIF_TMP: tmp, VERIF_REPO: REPO, JSII_SILENCE_WARNING_UNTESTED_NODE_VERSION: "1" },
      stdio: ["ignore", "pipe", "pipe"],
    });
    let out = "";
    const keep = (d) => { if (out.length < 20000) out += d; };
    p.stdout.on("data", keep); p.stderr.on("data", keep);
    let timedOut = false;
    const timer = setTimeout(() => { timedOut = true; out += "\n[timed out]"; p.kill("SIGKILL"); }, timeoutS * 1000);
    p.on("close", (code) => { clearTimeout(timer); resolve({ code, out, timedOut }); });
  });
}
const bundles = new Map();
let extra;
async function bundled(s) {
  const key = s.driver;
  if (!bundles.has(key)) bundles.set(key, (async () => {
    const esm = (s.bundle ?? def.bundle ?? {}).esm;
    const outfile = path.join(tmp, `${key.replace(/\W/g, "_")}.${esm ? "mjs" : "cjs"}`);
    // packages are found beside a module, whatever NODE_PATH says
    if (esm && !fs.existsSync(path.join(tmp, "node_modules"))) fs.symlinkSync(path.join(COMMON, "node_modules"), path.join(tmp, "node_modules"));
    try { if (def.tree) await transpileTree(tmp); if (def.extra) { extra ??= buildExtra(tmp, def.extra); await extra; } await bundle(path.join(VERIF, "drivers", key), outfile, s.bundle ?? def.bundle ?? {}); }
    catch (e) { throw new CheckError(`bundling ${key} failed: ${e.message}`); }
    return outfile;
  })());
  return bundles.get(key);
}

/** the driver's result; a driver that got to run the code and then hung, died or threw reports a violation */
function resultOf(s, r, resFile) {
  const res = fs.existsSync(resFile) ? JSON.parse(fs.readFileSync(resFile, "utf8")) : undefined;
  if (res && !res.error) return res;
  if (res && res.phase !== "run") throw new CheckError(`driver ${s.driver}/${s.name}: ${res.error}\n${r.out}`);
  const what = res ? `the code under test failed outside any allowed outcome: ${res.error}` : r.timedOut ? "the code under test does not come to an end" : "the code under test ended the process";
  if (!res && !r.timedOut && /Cannot find module|SyntaxError/.test(r.out)) throw new CheckError(`driver ${s.driver}/${s.name}: ${r.out}`);
  violation(s.name, { kind: what, out: r.out }, `${s.name}: ${what.slice(0, 800)}`);
  return undefined;
}

function diffs(e, o, at = "", acc = []) {
  if (acc.length > 6) return acc;
  if (e !== null && o !== null && typeof e === "object" && typeof o === "object" && Array.isArray(e) === Array.isArray(o)) {
    for (const k of new Set([...Object.keys(e), ...Object.keys(o)])) diffs(e[k], o[k], `${at}.${k}`, acc);
  } else if (JSON.stringify(e) !== JSON.stringify(o) && !(JSON.stringify(e) === "[]" && JSON.stringify(o) === "{}") && !(JSON.stringify(e) === "{}" && JSON.stringify(o) === "[]")) acc.push(`${at || "value"}: expected ${JSON.stringify(e)?.slice(0, 160)} observed ${JSON.stringify(o)?.slice(0, 160)}`);
  return acc;
}

async function replaySuite(s) {
  const g = new Graph();
  const ops = {};
  const outfile = bundled(s); outfile.catch(() => {});
  const tlc = await runTlc({
    module: s.module, name: s.name, cfg: tierOf(s.cfg), dir: tmp, workers: 1, timeoutS: s.tlcTimeoutS ?? 800, heapMb: s.heapMb,
    files: s.files ? await s.files({ tier, seed, tmp }) : undefined,
    args: tierOf(s.tlcArgs),
    onEmit: (e) => { g.add(e); ops[e.a.op] = (ops[e.a.op] ?? 0) + 1; },
  });
  if (!tlc.ok && !(s.simulate && tlc.errorKind !== "invariant" && !/Error:/.test(tlc.error ?? ""))) throw new CheckError(`TLC rejects the specification ${s.module} (${s.name}): ${tlc.error}`);
  for (const o of tierOf(s.ops) ?? []) if (!ops[o]) throw new CheckError(`vacuous: action ${o} of ${s.module} never taken`);
  // edges with a known finding are replayed apart, so that they do not hide what lies behind them
  const plain = known.length ? g.edges.filter((e) => !findingFor(s.name, e.a)) : g.edges;
  if (plain.length !== g.edges.length) {
    for (const n of g.nodes) n.out = n.out.filter((i) => !findingFor(s.name, g.edges[i].a));
  }
  const findingEdges = g.edges.filter((e) => findingFor(s.name, e.a));
  const { tours, covered } = g.tours(tierOf(s.maxLen) ?? 60, rngOf(seed), tierOf(s.maxTours) ?? Infinity);
  if (tierOf(s.maxTours) === undefined && !findingEdges.length && covered < plain.length) throw new CheckError(`${s.name}: only ${covered} of ${plain.length} transitions can be replayed`);
  // a known finding is shown once per finding, along a shortest path to such an edge
  const ft = [];
  if (findingEdges.length) {
    const par = new Map([...g.inits].map((i) => [i, null])); const q = [...g.inits];
    for (let k = 0; k < q.length; k++) for (const ei of g.nodes[q[k]].out) { const e = g.edges[ei]; if (!par.has(e.t)) { par.set(e.t, e); q.push(e.t); } }
    for (const e of findingEdges) {
      if (!par.has(e.s)) continue;
      const p = [e]; for (let x = par.get(e.s); x; x = par.get(x.s)) p.unshift(x);
      ft.push({ init: g.nodes[p[0].s].key, steps: p.map((x) => ({ a: x.a, o: x.o })) });
    }
  }
  // the behaviours are dealt out, in runs of neighbours, to as many processes as the suite asks for
  const all = [...tours, ...ft], shards = Math.max(1, Math.min(tierOf(s.shards) ?? 1, all.length)), size = Math.ceil(all.length / shards);
  const parts = await Promise.all(Array.from({ length: shards }, async (_, k) => {
    const planFile = path.join(tmp, `${s.name}.${k}.plan.json`), resFile = path.join(tmp, `${s.name}.${k}.res.json`);
    const fd = fs.openSync(planFile, "w");
    fs.writeSync(fd, `${JSON.stringify({ kind: "replay", params: tierOf(s.params) ?? {} })}\n`);
    let buf = [];
    const flush = () => { if (buf.length) fs.writeSync(fd, `${buf.join("\n")}\n`); buf = []; };
    for (const t of all.slice(k * size, (k + 1) * size)) { buf.push(JSON.stringify(t)); if (buf.length > 500) flush(); }
    flush(); fs.closeSync(fd);
    const r = await nodeRun(await outfile, [s.name, planFile, resFile], s.timeoutS ?? (tier === "quick" ? 400 : 3000));
    return resultOf(s, r, resFile);
  }));
  if (parts.some((x) => !x)) return;
  const res = parts.reduce((x, y) => ({ tours: x.tours + y.tours, steps: x.steps + y.steps, mismatches: [...x.mismatches, ...y.mismatches], samples: [...x.samples, ...y.samples], unhandled: [...(x.unhandled ?? []), ...(y.unhandled ?? [])] }));
  let bad = 0;
  for (const m of res.mismatches) {
    const k = findingFor(s.name, m.action, m.observed);
    if (k) { knownHit.set(k.id, k); continue; }
    bad++;
    if (bad <= 5) violation(s.name, { kind: "the real code departs from a behaviour of the specification", spec: s.module, ...m }, `${s.name}: after ${m.steps.length} step(s), ${JSON.stringify(m.action)} ${diffs(m.expected, m.observed).join("; ") || m.why || "not as expected"}`);
  }
  if (res.unhandled?.length && !s.allowUnhandled) violation(s.name, { unhandled: res.unhandled.slice(0, 5) }, "unhandled promise rejection");
  cov.states += tlc.states; cov.transitions += tlc.generated || g.edges.length; cov.traces_validated_against_impl += res.tours;
  cov.suites[s.name] = { direction: "specification -> code", spec: s.module, states: tlc.states, transitions_distinct: g.edges.length, transitions_replayed: covered, behaviours: res.tours, steps: res.steps, ops, exhaustive: covered === plain.length, tlc_s: tlc.wall };
  cov.samples.push(...res.samples.slice(0, 1).map((x) => ({ suite: s.name, ...x })));
}

async function traceSuite(s) {
  const traceFile = path.join(tmp, `${s.name}.ndjson`), planFile = path.join(tmp, `${s.name}.plan.json`), resFile = path.join(tmp, `${s.name}.res.json`);
  fs.writeFileSync(planFile, JSON.stringify({ kind: "record", seed: seed * 1000 + 17, traceFile, params: tierOf(s.params) ?? {} }));
  const r = await nodeRun(await bundled(s), [s.name, planFile, resFile], s.timeoutS ?? (tier === "quick" ? 400 : 3000));
  const res = resultOf(s, r, resFile);
  if (!res) return;
  if (!res.traces) throw new CheckError(`driver ${s.driver}/${s.name} recorded no trace`);
  if (res.unhandled?.length && !s.allowUnhandled) violation(s.name, { unhandled: res.unhandled.slice(0, 5) }, "unhandled promise rejection");
  let lines = fs.readFileSync(traceFile, "utf8").trimEnd().split("\n");
  const total = lines.length;
  let rejected = 0, wall = 0, states = 0, gen = 0;
  for (let round = 0; round < 4; round++) {
    const tlc = await runTlc({ module: s.module, name: `${s.name}-${round}`, cfg: tierOf(s.cfg), dir: tmp, workers: s.workers ?? 4, timeoutS: s.tlcTimeoutS ?? 800, heapMb: s.heapMb, files: { "trace.ndjson": `${lines.join("\n")}\n` } });
    wall += tlc.wall; states = Math.max(states, tlc.states); gen = Math.max(gen, tlc.generated);
    if (tlc.ok) break;
    // an observation TLC cannot even compare with the expected one is a rejection, too
    const stuckInTrace = tlc.errorKind === "error" && /Attempted to/.test(tlc.error) && /\btid = \d+/.test(tlc.error);
    if (!["deadlock", "invariant", "property"].includes(tlc.errorKind) && !stuckInTrace) throw new CheckError(`TLC fails on the traces of ${s.name}: ${tlc.error}`);
    const last = tlc.raw.join("\n");
    const tid = Number([...last.matchAll(/\btid = (\d+)/g)].at(-1)?.[1]);
    const l = Number([...last.matchAll(/(?:^|[^a-zA-Z])l = (\d+)/g)].at(-1)?.[1]);
    if (!tid) throw new CheckError(`cannot read the rejected trace: ${tlc.error}`);
    const tr = JSON.parse(lines[tid - 1]);
    rejected++;
    const ev = tr.ev?.[l - 1];
    violation(s.name, { kind: "a recorded execution is not a behaviour of the specification", spec: s.module, at: l, event: ev, trace: tr, tlc: tlc.error.slice(0, 4000) }, `${s.name}: event ${l} of a recorded trace is not allowed: ${JSON.stringify(ev)?.slice(0, 500)}`);
    lines = lines.filter((_, i) => i !== tid - 1);
    if (!lines.length) break;
  }
  // the binding is shown to bite: a corrupted copy of an accepted trace has to be rejected
  let corrupted;
  if (s.corrupt && !rejected) {
    const rng = rngOf(seed + 5);
    let bad; for (let i = 0; i < 200 && bad === undefined; i++) bad = s.corrupt(JSON.parse(lines[Math.floor(rng() * lines.length)]), rng);
    if (bad === undefined) throw new CheckError(`no trace of ${s.name} could be corrupted`);
    const tlc = await runTlc({ module: s.module, name: `${s.name}-corrupt`, cfg: tierOf(s.cfg), dir: tmp, workers: 1, timeoutS: 120, files: { "trace.ndjson": `${JSON.stringify(bad)}\n` } });
    if (tlc.ok) throw new CheckError(`the trace specification ${s.module} accepts a corrupted trace: ${JSON.stringify(bad)}`);
    corrupted = "rejected";
  }
  cov.states += states; cov.transitions += gen; cov.traces_validated_against_impl += total;
  cov.suites[s.name] = { direction: "code -> specification", spec: s.module, traces: total, rejected, corrupted_trace: corrupted, ...(res.stats ?? {}), tlc_s: wall };
  cov.samples.push(...res.samples.slice(0, 1).map((x) => ({ suite: s.name, ...x })));
}

async function modelSuite(s) {
  const tlc = await runTlc({ module: s.module, name: s.name, cfg: tierOf(s.cfg), dir: tmp, workers: s.workers ?? 4, timeoutS: s.tlcTimeoutS ?? 800, heapMb: s.heapMb, args: tierOf(s.tlcArgs) });
  if (s.expect ? tlc.errorKind !== s.expect : !tlc.ok) throw new CheckError(`TLC on ${s.module} (${s.name}): expected ${s.expect ?? "no error"}, got ${tlc.error ?? "no error"}`);
  cov.states += tlc.states; cov.transitions += tlc.generated;
  cov.suites[s.name] = { direction: "specification only", spec: s.module, states: tlc.states, transitions: tlc.generated, tlc_s: tlc.wall };
}

try {
  const suites = def.suites.filter((s) => (!only || s.name === only) && (tier === "thorough" || !s.thoroughOnly));
  const queue = [...suites];
  const errors = [];
  const worker = async () => { for (let s; (s = queue.shift()); ) { try { await (s.kind === "replay" ? replaySuite(s) : s.kind === "trace" ? traceSuite(s) : modelSuite(s)); } catch (e) { errors.push(e); } } };
  await Promise.all(Array.from({ length: def.parallel ?? 4 }, worker));
  if (errors.length && !violations.length) throw errors[0];
  for (const e of errors) console.error(String(e.stack ?? e));
  for (const k of knownHit.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  fs.writeFileSync(path.join(evid, `${id}.json`), JSON.stringify({ property: id, tier, seed, level: def.level ?? "model_checking", coverage: cov, assumptions: def.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: violations.length }, null, 1));
  for (const v of violations) { console.log(v.summary); console.log(`VIOLATION property=${id} replay=${v.f}`); }
  if (!violations.length) console.log(`${id}: held (${cov.states} states, ${cov.traces_validated_against_impl} behaviours bound to the code, ${((Date.now() - t0) / 1000).toFixed(1)} s)`);
  cleanup();
  process.exit(violations.length ? 1 : 0);
} catch (e) {
  console.error(e instanceof CheckError ? `check error: ${e.message}` : e);
  cleanup();
  process.exit(2);
}
