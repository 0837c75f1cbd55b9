import "./env-fn.js";
import { Writable } from "node:stream";
import { VirtualClock, captureStdout, takeLogs, settle, main, same, type Adapter } from "./rt.js";
import { DtLogger } from "@lib/aws/runtime/dt-logger.js";
import { createExceptionLogger, logException, truncateEnd, truncateMiddle } from "@lib/utils/logging.js";
import { logLeadTimes } from "@lib/utils/lead-time-logging.js";
import { StopWatch } from "@lib/utils/stop-watch.js";
import { HandlerFactory, createJsonLoggingHandler } from "@lib/aws/infra/api/handler-factory.js";

const clock = new VirtualClock(0);
clock.install();
captureStdout();
class HttpError extends Error { constructor() { super("403"); this.name = "HttpError"; } }
const VALUES: Record<string, () => unknown> = {
  num: () => 42, zero: () => 0, neg: () => -1.5, true: () => true, false: () => false, null: () => null, undefined: () => undefined, date: () => new Date(Date.UTC(2024, 1, 29, 12, 34, 56, 789)),
  baddate: () => new Date(Number.NaN), bigint: () => 12345678901234567890n, nan: () => Number.NaN, str: () => "some text", empty: () => "", eq: () => 'a=b "c"', nl: () => "two\nlines", utf: () => "ääkköset",
};
function error(e: string): any {
  const shared = { k: 1 };
  const loop: any = { name: "loop" }; loop.self = loop;
  return ({ error: () => new Error("it broke"), typeerror: () => new TypeError("wrong"), own: () => new HttpError(), string: () => "plain text", object: () => ({ code: 7, inner: { a: null } }), circular: () => loop,
    bigint: () => ({ big: 5n }), shared: () => ({ a: shared, b: shared }), undefined: () => undefined, nothing: () => undefined } as Record<string, () => unknown>)[e]!();
}
const typed = (v: unknown): any => typeof v === "string" ? { t: v } : typeof v === "number" ? { n: String(v) } : typeof v === "boolean" ? { b: v } : v === null ? { z: true } : { o: JSON.stringify(v) };
/** one written chunk: a JSON object in one line with a line end */
function parse(chunks: string[], stackOf?: { stack: string; token: string }): any[] {
  return chunks.join("").replaceAll("ääkköset", "(utf)").split("\n").filter((x, i, all) => i < all.length - 1 || x !== "").map((l) => {
    let o: any;
    try { o = JSON.parse(l); } catch { return { notJson: l }; }
    const json: any = {};
    for (const [k, v] of Object.entries(o)) json[k] = typed(v);
    if (stackOf && json.stack?.t === stackOf.stack) json.stack.t = `stack of ${stackOf.token}`;
    return json;
  });
}
function* permutations<T>(xs: T[]): Generator<T[]> {
  if (xs.length <= 1) yield xs;
  for (let i = 0; i < xs.length && xs.length > 1; i++) for (const p of permutations([...xs.slice(0, i), ...xs.slice(i + 1)])) yield [xs[i]!, ...p];
}
const lineMatches = (e: any, o: any): boolean => {
  const { message, ...rest } = o;
  if (!same(e.json, rest) || message?.t === undefined) return false;
  const ends = e.appended.length === 0 ? [e.base] : [...permutations(e.appended as string[])].map((p) => `${e.base} ${p.join(" ")}`);
  return ends.includes(message.t);
};
function lines(): Adapter {
  let chunks: string[] = [];
  let logger: DtLogger;
  let cfg: any;
  return {
    reset(init) {
      cfg = init[1];
      if (cfg.name === "env") process.env.AWS_LAMBDA_FUNCTION_NAME = "env-name"; else if (cfg.name === "given") process.env.AWS_LAMBDA_FUNCTION_NAME = "env-name"; else delete process.env.AWS_LAMBDA_FUNCTION_NAME;
      if (cfg.rt === "none") delete process.env.AWS_EXECUTION_ENV; else process.env.AWS_EXECUTION_ENV = "env-rt";
      logger = new DtLogger({ ...(cfg.name === "given" ? { lambdaName: "given-name" } : {}), ...(cfg.rt === "given" ? { runTime: "given-rt" } : {}),
        writeStream: new Writable({ decodeStrings: false, write(c, _e, cb) { chunks.push(String(c)); cb(); } }) });
    },
    step(a) {
      chunks = []; takeLogs();
      if (a.op === "log") {
        const err = a.m.error === "-" ? undefined : error(a.m.error);
        const m: any = { method: a.m.method, ...(a.m.message === "-" ? {} : { message: a.m.message }), ...(a.m.error === "-" ? {} : { error: err }), ...(a.m.stack === "-" ? {} : { stack: a.m.stack }) };
        for (const [k, v] of a.m.fields) m[k] = VALUES[v]!();
        const before = { ...m };
        try { (logger as any)[a.level.toLowerCase()](m); } catch (e) { return { kind: "threw", e: String(e) }; }
        return { kind: "wrote", lines: parse(chunks, err instanceof Error ? { stack: err.stack!, token: a.m.error } : undefined), untouched: Object.keys(m).length === Object.keys(before).length && Object.keys(before).every((k) => Object.is(m[k], before[k])) };
      }
      if (a.op === "debug") {
        const x = ({ num: 42, string: "some text", bigint: 5n } as any)[a.x] ?? error(a.x);
        try { logger.debug(x); } catch (e) { return { kind: "threw", e: String(e) }; }
        const ls = parse(chunks);
        return ls.length === 1 ? { kind: "debug", json: ls[0] } : { kind: "wrote", lines: ls };
      }
      const e = error(a.e);
      try {
        if (a.how === "direct") a.st ? logException(logger, e, true) : logException(logger, e);
        else if (a.how === "curried") createExceptionLogger(logger, a.st)(e);
        else (a.st ? createExceptionLogger(undefined, true) : createExceptionLogger())(e);
      } catch (x) { return { kind: "threw", e: String(x) }; }
      return { kind: "wrote", lines: parse(a.how === "curriednew" ? takeLogs().map((l) => `${l}\n`) : chunks, e instanceof Error ? { stack: e.stack!, token: a.e } : undefined), untouched: true };
    },
    match: matchLines,
  };
}
const matchLines = (e: any, o: any): boolean => {
  if (e.kind !== "wrote") return same(e, o);
  if (o.kind !== "wrote" || o.untouched !== e.untouched || o.lines.length !== e.lines.length) return false;
  return e.lines.every((l: any, i: number) => lineMatches(l, o.lines[i]));
};
function leads(): Adapter {
  const N: Record<string, number | undefined> = { "-": undefined, "0": 0, "5": 5, "-3": -3, frac: 1.5, nan: Number.NaN, big: 2 ** 53, inf: Number.POSITIVE_INFINITY };
  return {
    reset() {},
    step({ x }) {
      takeLogs();
      const p: any = { target: x.target, ...(x.lead === "-" ? {} : { leadTimeMs: N[x.lead] }), ...(x.process === "-" ? {} : { processTimeMs: N[x.process] }), ...(x.extra === "-" ? {} : { extraFields: { [x.extra]: "some text" } }) };
      const before = JSON.stringify(p);
      try { logLeadTimes(p); } catch (e) { return { kind: "threw", e: String(e) }; }
      return { kind: "wrote", lines: parse(takeLogs().map((l) => `${l}\n`)).map((l) => ({ ...l, lambdaName: l.lambdaName?.t === "fn" ? { t: "env-name" } : l.lambdaName })), untouched: JSON.stringify(p) === before };
    },
    match: matchLines,
  };
}
function texts(): Adapter {
  return { reset() {}, step(a) { const f = a.fn === "end" ? truncateEnd : truncateMiddle; return { kind: "text", text: a.max < 0 ? f(a.text) : f(a.text, a.max) }; } };
}
function handlers(): Adapter {
  let f: HandlerFactory, made: ((e: unknown) => Promise<any>)[], own: { logger: DtLogger; chunks: string[] }[], opened: any[], custom: any[];
  const began: { h: number; event: unknown; resolve: (v: any) => void; reject: (e: unknown) => void }[] = [];
  const took = (c: string): any => { const o = JSON.parse(c); return o.level === "INFO" && o.method === "fn.handler" ? o.tookMs : o; };
  return {
    reset() { clock.reset(0); f = new HandlerFactory(); made = []; own = []; opened = []; custom = []; began.length = 0; takeLogs(); },
    async step(a) {
      if (a.op === "set") {
        if (a.k === "log") f.withLoggingHandler(a.v === "json" ? createJsonLoggingHandler() : async (m, l) => { const t = Date.now(); try { return await m(); } finally { custom.push({ by: `custom of logger ${own.findIndex((o) => o.logger === l) + 1}`, took: Date.now() - t }); } });
        else f.withErrorHandler(a.v === "answer" ? (e, l) => ({ status: 200, made: `made of ${(e as Error).message} with logger ${own.findIndex((o) => o.logger === l) + 1}` }) as any : (e) => { throw new Error(`other for ${(e as Error).message}`); });
        return { kind: "none" };
      }
      if (a.op === "create") {
        const chunks: string[] = [], h = made.length + 1;
        const logger = new DtLogger({ lambdaName: "x", runTime: "y", writeStream: new Writable({ decodeStrings: false, write(c, _e, cb) { chunks.push(String(c)); cb(); } }) });
        own.push({ logger, chunks });
        made.push(f.createEventHandler((event) => new Promise((resolve, reject) => { began.push({ h, event, resolve, reject }); }), logger));
        return { kind: "none" };
      }
      if (a.op === "wait") { await clock.advance(a.ms); return { kind: "none" }; }
      if (a.op === "begin") {
        const slot: any = {};
        const n = began.length;
        made[a.h - 1]!(a.e).then((v) => { slot.v = v.made ?? v.answer; }, (e) => { slot.v = `threw ${e.message}`; });
        await settle(1);
        if (began.length !== n + 1) return { kind: "not called once" };
        slot.run = began[n]; opened.push(slot);
        return { kind: "running", handler: began[n]!.h, event: began[n]!.event };
      }
      const slot = opened[a.i - 1];
      takeLogs(); custom.length = 0; for (const o of own) o.chunks.length = 0;
      if (a.how === "ok") slot.run.resolve({ status: 200, answer: `answer ${slot.run.h}` }); else slot.run.reject(new Error(`failure ${slot.run.h}`));
      await settle(1);
      return { kind: "settled", answer: slot.v ?? "pending", logged: [...custom, ...takeLogs().map((c) => ({ by: "default logger", took: took(c) })), ...own.flatMap((o, i) => o.chunks.map((c) => ({ by: `logger ${i + 1}`, took: took(c) })))] };
    },
  };
}
function stopwatch(): Adapter {
  let sw: StopWatch, names: string[];
  const T0 = 0;
  return {
    reset(init) { clock.reset(T0); sw = new StopWatch(); names = Object.keys(init[1]); },
    async step(a) {
      let out: any = { kind: "done" };
      takeLogs();
      try {
        if (a.op === "start") { const r = a.t ? sw.start(a.t) : sw.start(); if (r !== sw) out.kind = "no chain"; }
        else if (a.op === "stop") { const r = a.t ? sw.stop(a.t) : sw.stop(); if (r !== sw) out.kind = "no chain"; }
        else if (a.op === "reset") sw.reset(a.t);
        else if (a.op === "resetall") sw.reset();
        else if (a.op === "started") sw = a.t ? StopWatch.createStarted(a.t) : StopWatch.createStarted();
        else if (a.op === "wait") await clock.advance(a.ms);
        else { sw.logTasks("some.method", a.level); out = { kind: "logged", lines: takeLogs().map((l) => JSON.parse(l)).map((o) => ({ level: o.level.toLowerCase(), task: o.task, took: o.tookMs })) }; }
      } catch (e) { out = { kind: /not found/.test(String(e)) ? "not found" : String(e) }; }
      const tasks: any = {};
      const all = sw.getTasks();
      for (const t of names) {
        const x = t ? sw.getTask(t) : sw.getTask("DEFAULT_INTERNAL_TASK");
        if (t && (x !== undefined) !== all.some((y) => y.taskName === t)) out.list = `getTasks and getTask differ on ${t}`;
        tasks[t] = { known: x !== undefined, running: x?.isRunning ?? false, total: x?.totalDuration ?? 0, periods: (x?.periods ?? []).map((p) => [p.startTime - T0, p.endTime === undefined ? -1 : p.endTime - T0]), dur: t ? sw.getDuration(t) : sw.getDuration() };
      }
      return { out, tasks };
    },
    match(e, o) {
      if (e.out.kind === "logged" && o.out.lines) { const k = (x: any): string => JSON.stringify([x.level, x.task, x.took]); e = { ...e, out: { ...e.out, lines: e.out.lines.map(k).sort() } }; o = { ...o, out: { ...o.out, lines: o.out.lines.map(k).sort() } }; }
      return same(e, o);
    },
  };
}
main({ lines: { adapter: lines }, errors: { adapter: lines }, leads: { adapter: leads }, texts: { adapter: texts }, handlers: { adapter: handlers }, stopwatch: { adapter: stopwatch }, periods: { adapter: stopwatch } });
