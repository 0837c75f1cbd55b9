import { AsyncLocalStorage } from "node:async_hooks";
import { VirtualClock, captureStdout, settle, main, pick, type Adapter } from "./rt.js";
import { retry, retryRequest, RetryLogError, timeoutFunctions, retryPredicates } from "@lib/utils/retry.js";
import { HttpError } from "@lib/types/http-error.js";
import { AsyncTimeoutError } from "@lib/types/async-timeout-error.js";

const T0 = Date.UTC(2024, 0, 1);
const clock = new VirtualClock(T0);
clock.install();
const who = new AsyncLocalStorage<string>();
interface Client { attempts: number; out: string; logs: { level: string; text: string }[]; inflight: { ok: () => void; fail: (e: unknown) => void }[]; deadline: number; zombie?: { ok: () => void; fail: (e: unknown) => void } }
const MESSAGES = [...[200, 400, 401, 402, 404, 408, 409, 403, 429, 430, 500, 501, 502, 503, 504, 599].map((n) => `http${n}`), "sub429", "sub503", "like403", "like429", "error", "Something else than an Error object was thrown", "Async operation timed out"];
let clients: Record<string, Client> = {};
captureStdout((line) => {
  const c = who.getStore();
  if (!c || !clients[c]) return;
  const j = JSON.parse(line);
  const prefix = `${j.method} `;
  // only what is said about the attempts' errors; progress chatter is not part of the contract
  if (!MESSAGES.some((m) => String(j.message).endsWith(m))) return;
  clients[c]!.logs.push({ level: j.level, text: j.message.startsWith(prefix) ? j.message.slice(prefix.length) : j.message });
});
const fresh = (): Client => ({ attempts: 0, out: "pending", logs: [], inflight: [], deadline: 0 });
export const errOf = (k: string): unknown =>
  k.startsWith("sub") ? new (class Refined extends HttpError {})(Number(k.slice(3)), k) :
  k.startsWith("like") ? Object.assign(new Error(k), { statusCode: Number(k.slice(4)), status: Number(k.slice(4)) }) :
  k.startsWith("http") ? new HttpError(Number(k.slice(4)), k) : k === "string" ? "just a string" : k === "timeout" ? new AsyncTimeoutError() : new Error(k);
const NUM: Record<number, number> = { 9999: Number.POSITIVE_INFINITY, 9998: Number.NEGATIVE_INFINITY, 9997: Number.NaN };
const MODE: Record<string, RetryLogError> = { all: RetryLogError.LOG_ALL_AS_ERRORS, last: RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS, no: RetryLogError.NO_LOGGING };
const PRED: Record<string, (e: unknown) => boolean> = { always: retryPredicates.alwaysRetry, never: () => false, status: retryPredicates.retryBasedOnStatusCode, notimeout: (e) => !(e instanceof Error && e.message === "Async operation timed out") };
const DELAY: Record<string, (n: number) => number> = { none: timeoutFunctions.noTimeout, exp: timeoutFunctions.exponentialTimeout, lin: (n) => 100 * n, neg: () => -5, one: () => 1 };

function invoke(cfg: any, fn: () => Promise<unknown>): Promise<unknown> {
  if (cfg.via === "default") return retry(fn);
  if (cfg.via === "request") return retryRequest(async (...args: unknown[]) => { if (JSON.stringify(args) !== '["x",1]') throw new Error("arguments lost"); return await fn(); }, "x", 1);
  return retry(fn, NUM[cfg.retries] ?? cfg.retries, MODE[cfg.mode], DELAY[cfg.delay], PRED[cfg.pred]);
}
function watch(c: Client, p: Promise<unknown>): void {
  p.then((v) => { c.out = v === "value" ? "ok" : `wrong value ${String(v)}`; }, (e) => { c.out = e instanceof Error ? e.message : `threw ${String(e)}`; });
}
const adapter = (): Adapter => ({
  reset() { clock.reset(T0); clients = {}; },
  async step(a) {
    const observe = (): unknown => ({ now: clock.now - T0, c: Object.fromEntries(all.map((k) => { const c = clients[k] ?? fresh(); return [k, { attempts: c.attempts, out: c.out, logs: c.logs }]; })) });
    if (a.op === "call") {
      const c = (clients[a.c] = fresh());
      who.run(a.c, () => watch(c, invoke(a.cfg, () => new Promise((res, rej) => {
        c.attempts++;
        if (c.inflight.length) c.zombie = c.inflight.shift();
        c.inflight.push({ ok: () => res("value"), fail: rej });
      }))));
    } else if (a.op === "succeed") clients[a.c]!.inflight.shift()!.ok();
    else if (a.op === "fail") clients[a.c]!.inflight.shift()!.fail(errOf(a.err));
    else if (a.op === "late") {
      const c = clients[a.c]!;
      // the attempt that was given up on: replaced by a later one, or the last one that never settled
      const z = c.zombie ?? c.inflight.shift()!;
      c.zombie = undefined;
      if (a.err === "ok") z.ok(); else z.fail(errOf(a.err));
    } else if (a.op === "tick") {
      await clock.advance(a.ms);
    }
    await settle();
    return observe();
  },
});
let all: string[] = [];
function wrap(names: string[]): Adapter { all = names; return adapter(); }
// random use by three callers, recorded as it happens
async function record(params: any, rng: () => number, emit: (t: unknown) => void): Promise<any> {
  const stats = { events: 0 };
  for (let n = 0; n < params.n; n++) {
    const ad = wrap(["a", "b", "c"]);
    await ad.reset({});
    const ev: unknown[] = [];
    const big = n % 25 === 0; // now and then the largest number of retries allowed, run to the end
    for (let i = 0; i < (big ? 220 : params.len); i++) {
      const acts: any[] = [];
      for (const c of big ? ["a"] : all) {
        const s = clients[c];
        if (!s || s.out !== "pending") {
          if (big && s) continue;
          acts.push({ op: "call", c, cfg: { via: big ? "retry" : pick(rng, ["retry", "retry", "default", "request"]), retries: big ? 100 : pick(rng, [-1, 0, 1, 2, 3, 4, 6, 101, 9999, 9998, 9997]), mode: pick(rng, ["all", "last", "no"]), pred: big ? "always" : pick(rng, ["always", "status", "status", "notimeout", "never"]), delay: big ? "lin" : pick(rng, ["none", "exp", "lin", "neg"]) } });
        }
        if (s && s.inflight.length && s.out === "pending") {
          if (!big) acts.push({ op: "succeed", c });
          for (let k = 0; k < 3; k++) acts.push({ op: "fail", c, err: pick(rng, ["http403", "http429", "http500", "http503", "http401", "like429", "sub429", "error", "string"]) });
        }
        if (s?.zombie) acts.push({ op: "late", c, err: pick(rng, ["ok", "error"]) });
      }
      const next = clock.timers.map((t) => t.at).sort((a, b) => a - b)[0];
      const waiting = all.some((c) => clients[c] && clients[c]!.out === "pending" && !clients[c]!.inflight.length);
      if (next !== undefined && (waiting || rng() < 0.08)) {
        const gap = next - clock.now;
        for (let k = 0; k < (waiting ? 4 : 1); k++) acts.push({ op: "tick", ms: rng() < 0.8 ? gap : Math.floor(gap * rng()) });
      }
      if (!acts.length) break;
      const a = pick(rng, acts);
      const o = await ad.step(a);
      ev.push({ a, o: JSON.parse(JSON.stringify(o)) });
      stats.events++;
    }
    emit({ ev });
  }
  return { stats };
}
main({
  status: { adapter: () => wrap(["a"]) },
  single: { adapter: () => wrap(["a"]) },
  long: { adapter: () => wrap(["a"]) },
  interleaved: { adapter: () => wrap(["a", "b"]) },
  random: { record },
});
