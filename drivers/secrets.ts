import { VirtualClock, captureStdout, settle, main, pick, type Adapter } from "./rt.js";
import { requests, total } from "./stubs/secrets-manager.js";
import { SecretHolder } from "@lib/aws/runtime/secrets/secret-holder.js";
import { ProxyHolder } from "@lib/aws/runtime/secrets/proxy-holder.js";
import { RdsHolder } from "@lib/aws/runtime/secrets/rds-holder.js";
import { getSecret, getFromEnvOrSecret } from "@lib/aws/runtime/secrets/secret.js";

const T0 = Date.UTC(2024, 0, 1);
const clock = new VirtualClock(T0);
clock.install();
captureStdout(() => {});
process.env.AWS_REGION = "eu-west-1";
// secrets are read from the region of the lambda unless another one is given for them
const REGION = process.argv[2] === "direct" ? "eu-north-1" : "eu-west-1";
if (REGION === "eu-north-1") process.env.SECRET_OVERRIDE_AWS_REGION = REGION;
process.env.SECRET_ID = "the-secret";
const ENV = ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"];
let read: Record<string, () => Promise<unknown>> = {};
let slots: { p: (typeof requests)[number]; done: { v?: any } }[] = [];
let base = 0;
const obj = (v: any): any => (v !== null && typeof v === "object" ? { ...v } : { value: v });
function adapter(): Adapter {
  return {
    reset() {
      clock.reset(T0); requests.length = 0; base = total.n; slots = [];
      for (const k of ENV) delete process.env[k];
      delete process.env.TOKEN;
      const plain = SecretHolder.create<any>();
      const prefixed = new SecretHolder<any>("the-secret", "p", ["user", "key"]);
      const proxy = ProxyHolder.create();
      const rds = RdsHolder.create();
      read = { plain: () => plain.get(), prefixed: () => prefixed.get(), proxy: () => proxy.setCredentials(), rds: () => rds.setCredentials(),
        direct: () => getSecret("the-secret"), directprefixed: () => getSecret("the-secret", "p"), env: () => getFromEnvOrSecret("TOKEN", "the-secret") };
    },
    async step(a) {
      let out: any = { kind: "none" };
      const start = async (f: () => Promise<unknown>, r: string): Promise<any> => {
        const done: { v?: any } = {};
        const before = requests.length;
        const set = r === "proxy" || r === "rds";
        f().then((v) => { done.v = set ? { kind: "set" } : { kind: "value", v: obj(v) }; },
          (e) => { const m = e instanceof Error ? e.message : String(e); done.v = { kind: "fails", why: m === "store down" ? "down" : m === "No secret found!" ? "empty" : m.startsWith("Expected keys") || m.startsWith("Cannot get value") ? "missing" : e instanceof SyntaxError ? "garbled" : m }; });
        await settle(1);
        if (done.v) return done.v;
        if (requests.length === before + 1) { slots[a.s] = { p: requests[before]!, done }; if (requests[before]!.id !== "the-secret" || requests[before]!.region !== REGION) return { kind: "asked for", id: requests[before]!.id, region: requests[before]!.region }; return { kind: "pending" }; }
        return { kind: "stuck" };
      };
      if (a.op === "get") out = await start(read[a.r]!, a.r);
      else if (a.op === "envget") { process.env.TOKEN = a.v; out = await start(read.env!, "env"); delete process.env.TOKEN; }
      else if (a.op === "answer") {
        const { p, done } = slots[a.s]!;
        if (a.status === "ok") p.resolve({ SecretString: JSON.stringify(a.secret) });
        else if (a.status === "down") p.reject(new Error("store down"));
        else if (a.status === "empty") p.resolve({});
        else p.resolve({ SecretString: "{not json" });
        await settle(1);
        out = done.v ?? { kind: "stuck" };
      } else if (a.op === "advance") await clock.advance(a.ms);
      return { out, env: Object.fromEntries(ENV.map((k) => [k, process.env[k] ?? "-"])), fetches: total.n - base };
    },
  };
}
const SEC = (v: number): any => {
  const o: any = {};
  const missing: Record<number, string[]> = { 2: ["password", "p.key", "TOKEN"], 4: ["proxy_ro_host", "p.user"] };
  for (const k of ["username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host", "p.user", "p.key", "p.empty", "pq.user", "p.p.user", "up.user", "user", "key", "TOKEN"]) if (!(missing[v] ?? []).includes(k)) o[k] = k === "p.empty" || (v === 5 && ["password", "TOKEN", "user"].includes(k)) ? "" : `${k}#${v}`;
  return o;
};
async function record(params: any, rng: () => number, emit: (t: unknown) => void): Promise<any> {
  let events = 0;
  for (let n = 0; n < params.n; n++) {
    const ad = adapter();
    await ad.reset({});
    const ev: unknown[] = [];
    let ver = 1, status = "ok", busy: (string | undefined)[] = [undefined, undefined, undefined, undefined, undefined];
    for (let i = 0; i < params.len; i++) {
      const free = [1, 2, 3, 4].find((s) => !busy[s]);
      const x = rng();
      let a: any;
      if (x < 0.45 && free) a = { op: "get", r: pick(rng, Object.keys(read)), s: free };
      else if (x < 0.75 && busy.some(Boolean)) { const s = pick(rng, [1, 2, 3, 4].filter((s) => busy[s])); a = { op: "answer", s, status, secret: SEC(ver) }; }
      else if (x < 0.8) a = { op: "envget", s: 9, v: pick(rng, ["from environment", ""]) };
      else if (x < 0.87) { const v = pick(rng, [1, 2, 3, 4, 5].filter((v) => v !== ver)); a = { op: "rotate", ver: v }; ver = v; }
      else if (x < 0.92) { const v = pick(rng, ["ok", "ok", "down", "empty", "garbled"].filter((v) => v !== status)); a = { op: "status", status: v }; status = v; }
      else a = { op: "advance", ms: pick(rng, [1, 1000, 60000, 150000, 299999, 300000, 300001]) };
      const o: any = await ad.step(a);
      if (a.op === "get" && o.out.kind === "pending") busy[a.s] = a.r;
      if (a.op === "answer") busy[a.s] = undefined;
      if (a.op === "envget") delete a.s;
      ev.push({ a, o: JSON.parse(JSON.stringify(o)) });
      events++;
    }
    emit({ ev });
  }
  return { stats: { events } };
}
main({ caching: { adapter }, concurrent: { adapter }, credentials: { adapter }, direct: { adapter }, random: { record } });
