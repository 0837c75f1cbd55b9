// Runtime shared by the conformance drivers: virtual clock, captured log lines, replay loop, trace recording.
import fs from "node:fs";
import readline from "node:readline";

// ---------- real primitives, taken before anything is faked
const realSetImmediate = globalThis.setImmediate;
const realSetTimeout = globalThis.setTimeout;
const realClearTimeout = globalThis.clearTimeout;
const RealDate = globalThis.Date;
export const realNow = (): number => RealDate.now();
export const realSleep = (ms: number): Promise<void> => new Promise((r) => realSetTimeout(r, ms));

/** Lets every pending promise reaction run (no timer fires, as timers are virtual). */
export async function settle(rounds = 3): Promise<void> {
  for (let i = 0; i < rounds; i++) await new Promise<void>((r) => realSetImmediate(r));
}

// ---------- virtual clock
interface VTimer { id: number; at: number; fn: () => void; every?: number }
export class VirtualClock {
  now = 0;
  private seq = 1;
  timers: VTimer[] = [];
  constructor(start: number) { this.now = start; }
  install(): void {
    const self = this;
    class FakeDate extends RealDate {
      constructor(...args: unknown[]) {
        if (args.length === 0) super(self.now);
        // @ts-ignore
        else super(...args);
      }
      static now(): number { return self.now; }
    }
    // @ts-ignore
    globalThis.Date = FakeDate;
    // instanceof must keep working for real dates made before
    Object.defineProperty(FakeDate, Symbol.hasInstance, { value: (x: unknown) => Object.prototype.toString.call(x) === "[object Date]" });
    // @ts-ignore
    globalThis.setTimeout = (fn: (...a: unknown[]) => void, ms = 0, ...args: unknown[]) => this.add(() => fn(...args), Number(ms) || 0);
    // @ts-ignore
    globalThis.clearTimeout = (h: unknown) => this.remove(h);
    // @ts-ignore
    globalThis.setInterval = (fn: (...a: unknown[]) => void, ms = 0, ...args: unknown[]) => this.add(() => fn(...args), Number(ms) || 0, Number(ms) || 1);
    // @ts-ignore
    globalThis.clearInterval = (h: unknown) => this.remove(h);
    performance.now = () => self.now;
  }
  uninstall(): void {
    globalThis.Date = RealDate;
    globalThis.setTimeout = realSetTimeout;
  }
  private add(fn: () => void, ms: number, every?: number): object {
    const id = this.seq++;
    this.timers.push({ id, at: this.now + Math.max(0, ms), fn, every });
    const h = { id, ref: () => h, unref: () => h, hasRef: () => true, refresh: () => h, close: () => this.remove(h), [Symbol.toPrimitive]: () => id };
    return h;
  }
  private remove(h: unknown): void {
    const id = typeof h === "object" && h !== null ? (h as { id: number }).id : h;
    this.timers = this.timers.filter((t) => t.id !== id);
  }
  reset(now: number): void { this.timers = []; this.now = now; }
  /** Moves time on, firing what falls due, one timer at a time, letting promises settle after each. */
  async advance(ms: number): Promise<void> {
    const target = this.now + ms;
    for (;;) {
      const due = this.timers.filter((t) => t.at <= target).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!due) break;
      this.now = Math.max(this.now, due.at);
      if (due.every !== undefined) due.at = this.now + due.every;
      else this.timers = this.timers.filter((t) => t !== due);
      due.fn();
      await settle();
    }
    this.now = target;
    await settle();
  }
}

// ---------- captured log lines (everything the code writes to stdout)
export const logLines: string[] = [];
let onLog: ((line: string) => void) | undefined;
export function captureStdout(listener?: (line: string) => void): void {
  onLog = listener;
  const write = (chunk: unknown, enc?: unknown, cb?: unknown): boolean => {
    for (const l of String(chunk).split("\n")) if (l !== "") { if (onLog) onLog(l); else logLines.push(l); }
    if (typeof enc === "function") enc(); else if (typeof cb === "function") (cb as () => void)();
    return true;
  };
  // @ts-ignore
  process.stdout.write = write;
}
export function takeLogs(): string[] { return logLines.splice(0); }

// ---------- canonical comparison
export function canon(v: unknown): unknown {
  if (v === undefined) return "undefined";
  if (v instanceof Set) return canon([...v].map((x) => JSON.stringify(canon(x))).sort());
  if (Array.isArray(v)) return v.map(canon);
  if (v !== null && typeof v === "object") {
    const o = v as Record<string, unknown>;
    const ks = Object.keys(o).sort();
    if (ks.length === 0) return []; // TLA+ does not tell <<>> from an empty record
    const r: Record<string, unknown> = {};
    for (const k of ks) r[k] = canon(o[k]);
    return r;
  }
  return v;
}
export const same = (a: unknown, b: unknown): boolean => JSON.stringify(canon(a)) === JSON.stringify(canon(b));

// ---------- replay
export interface Step { a: Record<string, any>; o: any }
export interface Tour { init: any; steps: Step[] }
export interface Adapter {
  /** brings the real system to the tour's initial state */
  reset(init: any): Promise<void> | void;
  /** performs the action on the real code and returns what can be observed after it */
  step(a: Record<string, any>, again?: boolean): Promise<unknown> | unknown;
  /** a step that is walked again, after exactly the same steps as before, is taken (again = true) but not looked at */
  lazy?: boolean;
  /** optional: relates the expected observation to the observed one (default: equality) */
  match?(expected: any, observed: any, a: Record<string, any>): boolean | string;
  done?(): Promise<void> | void;
}
export type Recorder = (params: any, rng: () => number, emit: (trace: unknown) => void) => Promise<any> | any;

export function rngOf(seed: number): () => number {
  let a = (seed >>> 0) ^ 0x9e3779b9;
  return () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
}
export const pick = <T>(rng: () => number, xs: readonly T[]): T => xs[Math.floor(rng() * xs.length)]!;
export const int = (rng: () => number, lo: number, hi: number): number => lo + Math.floor(rng() * (hi - lo + 1));

/** a step that does not end within a minute of real time hangs */
async function within<T>(p: Promise<T> | T): Promise<T> {
  let h: any;
  const guard = new Promise<never>((_, rej) => { h = realSetTimeout(() => rej(new Error("the code under test hangs")), 30000); });
  try { return await Promise.race([p, guard]); } finally { realClearTimeout(h); }
}

export function main(suites: Record<string, { adapter?: (params: any) => Adapter | Promise<Adapter>; record?: Recorder }>): void {
  const [, , suite, planFile, resultFile] = process.argv;
  process.on("unhandledRejection", (e) => { unhandled.push(String(e)); });
  const unhandled: string[] = [];
  let phase = "load";
  const run = async (): Promise<unknown> => {
    const lines = readline.createInterface({ input: fs.createReadStream(planFile!) })[Symbol.asyncIterator]();
    const plan = JSON.parse((await lines.next()).value);
    const s = suites[suite!];
    if (!s) throw new Error(`driver has no suite ${suite}`);
    if (plan.kind === "replay") {
      const ad = await s.adapter!(plan.params);
      const res = { tours: 0, steps: 0, mismatches: [] as unknown[], samples: [] as unknown[], distinctActions: 0 };
      const acts = new Set<string>(), walked = new Set<string>();
      phase = "run";
      const started = realNow();
      for (let ln = await lines.next(); !ln.done; ln = await lines.next()) {
        if (res.mismatches.length >= 50 || (res.mismatches.length >= 6 && realNow() - started > 30000)) break;
        const t = JSON.parse(ln.value) as Tour;
        try { await within(ad.reset(t.init)); } catch (e) { if (res.mismatches.length < 50) res.mismatches.push({ init: t.init, steps: [], at: -1, action: { op: "init" }, expected: "initial state", observed: String((e as Error)?.stack ?? e) }); continue; }
        const seen: unknown[] = [];
        res.tours++;
        let way = ad.lazy ? JSON.stringify(t.init) : "";
        for (let i = 0; i < t.steps.length; i++) {
          const st = t.steps[i]!;
          let obs: unknown, again = false;
          if (ad.lazy) { way += JSON.stringify(st.a); again = walked.has(way); walked.add(way); }
          try { obs = await within(ad.step(st.a, again)); } catch (e) { obs = { harnessError: String(e), stack: String((e as Error).stack).split("\n").slice(0, 6) }; }
          res.steps++;
          acts.add(JSON.stringify(st.a));
          if (again && !(obs as any)?.harnessError) continue;
          const m = ad.match && !(obs as any)?.harnessError ? ad.match(st.o, obs, st.a) : same(st.o, obs);
          if (seen.length < 12) seen.push({ action: st.a, observed: canon(obs) });
          if (m !== true) {
            if (/the code under test hangs/.test((obs as any)?.harnessError ?? "")) { res.mismatches.push({ init: t.init, steps: t.steps.slice(0, i + 1), at: i, action: st.a, expected: st.o, observed: canon(obs) }); return res; }
            if (res.mismatches.length < 50) res.mismatches.push({ init: t.init, steps: t.steps.slice(0, i + 1), at: i, action: st.a, expected: st.o, observed: canon(obs), why: typeof m === "string" ? m : undefined });
            break;
          }
        }
        await ad.done?.();
        if (res.samples.length < 2 && t.steps.length > 0 && (res.tours % 7 === 1)) res.samples.push({ init: t.init, steps: seen });
      }
      res.distinctActions = acts.size;
      return res;
    }
    const out = fs.createWriteStream(plan.traceFile);
    let traces = 0;
    const samples: unknown[] = [];
    phase = "run";
    const extra = await s.record!(plan.params ?? {}, rngOf(plan.seed), (t) => {
      traces++;
      if (samples.length < 2) samples.push(t);
      out.write(`${JSON.stringify(t)}\n`);
    });
    await new Promise<void>((r) => out.end(() => r()));
    return { traces, samples, ...(extra ?? {}) };
  };
  run().then(
    (r) => { fs.writeFileSync(resultFile!, JSON.stringify({ ...(r as object), unhandled })); process.exit(0); },
    (e) => { fs.writeFileSync(resultFile!, JSON.stringify({ error: `${e?.stack ?? e}`, phase })); process.exit(3); },
  );
}
