import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";
import { source } from "./stubs/undici.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
process.env.TZ = "UTC";
const BASE = Date.UTC(2026, 1, 3);
const NO = 99999, HOUR = 36e5;
clock.now = BASE;
fakeDate();
Object.assign(process.env, { SECRET_ID: "the-secret", DB_USER: "user", DB_PASS: "pass", DB_URI: "x", DB_RO_URI: "x", DB_APPLICATION: "app" });
const pg = new SqlPg({
  schemas: ["marine"],
  functions: basics,
  // which of the two a statement did goes to the log only
  rewrite: (s) => s.replace(/returning[\s\S]*xmax[\s\S]*$/i, "RETURNING 1 AS inserted, 0 AS updated"),
  ddl: [
    "CREATE TABLE pc2_visit (visit_id TEXT PRIMARY KEY, vessel_id TEXT NOT NULL, vessel_name TEXT NOT NULL, port_locode TEXT NOT NULL, eta TIMESTAMPTZ NOT NULL, etd TIMESTAMPTZ, ata TIMESTAMPTZ, atd TIMESTAMPTZ, status TEXT NOT NULL, update_time TIMESTAMPTZ NOT NULL)",
    "CREATE TABLE updated_timestamp (updated_name TEXT PRIMARY KEY, updated_time TIMESTAMPTZ NOT NULL, updated_by TEXT NOT NULL)",
  ],
});
const VESSEL: Record<string, [string, string]> = { V1: ["ALPHA", "9000001"], V2: ["Beta", "9000002"], V3: ["ALPHA", "9000001"], V4: ["Gamma Ray", "9000004"], V5: ["DELTA", "9000005"] };
const ms = (t: number): number => BASE + t * HOUR;
const iso = (t: number): string => new Date(ms(t)).toISOString();
const maybe = (t: number): string | null => (t === NO ? null : iso(t));
const back = (x: any): any => (x === null || x === undefined ? NO : Number.isFinite(x) ? (x - BASE) / HOUR : /^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}Z$/.test(x) ? (Date.parse(x) - BASE) / HOUR : `not a time: ${x}`);
const b64 = (s: string): string => Buffer.from(s).toString("base64");
let update: any, getAll: any, getOne: any, world: any[] = [], broken: number | undefined, odd: string[] = [];
const MOMENT = /^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$/;
source.answer = (url, agent) => {
  const m = /^\/visits\/([^/]+)\/([^/]+)$/.exec(decodeURIComponent(url.pathname));
  if (url.origin !== "https://nemo.example.com" || !m || !MOMENT.test(m[1]!) || !MOMENT.test(m[2]!)) { odd.push(`asked ${url}`); return { status: 404, body: "{}" }; }
  if (agent?.options?.connect?.cert !== "the certificate" || agent?.options?.connect?.key !== "the key") { odd.push("asked without the certificate"); return { status: 403, body: "{}" }; }
  const [from, to] = [Date.parse(m[1]!), Date.parse(m[2]!)];
  if (broken !== undefined && from <= broken && broken < to) {
    const day = Math.round((broken - BASE) / 864e5);
    return day % 3 === 0 ? "lost" : day % 3 === 1 ? { status: 503, body: "[]" } : { status: 200, body: "<html>" };
  }
  return { status: 200, body: JSON.stringify(world.filter((v) => ms(v.eta) >= from && ms(v.eta) < to).map((v) => ({
    visitId: v.id, latestUpdateTime: iso(v.upd),
    portCall: { vesselInformation: { identification: VESSEL[v.id]![1], name: VESSEL[v.id]![0] }, voyageInformation: { portIdentification: v.port, estimatedArrivalDateTime: iso(v.eta), estimatedDepartureDateTime: maybe(v.etd) }, arrivalNotification: { actualArrivalDateTime: maybe(v.ata) }, departureNotification: { actualDepartureDateTime: maybe(v.atd) }, portCallStatus: { status: v.status } },
  }))) };
};
const load = async (): Promise<void> => {
  await pg.ready();
  const [rw, ro] = [process.env.DB_URI!, process.env.DB_RO_URI!];
  secrets.value = { username: "user", password: "pass", proxy_host: rw, proxy_ro_host: ro, host: rw, ro_host: ro, "port-call.url": "https://nemo.example.com/visits", "port-call.privateKey": b64("the key"), "port-call.certificate": b64("the certificate") };
  update ??= (await import("@repo/marine/port-call/src/lambda/update-visits/update-visits.js")).handler;
  getAll ??= (await import("@repo/marine/port-call/src/lambda/get-visits/get-visits.js")).handler;
  getOne ??= (await import("@repo/marine/port-call/src/lambda/get-visit/get-visit.js")).handler;
};
const BADLY: Record<string, any> = { unknown: { vesselname: "x" }, from: { fromDateTime: "yesterday" }, to: { toDateTime: "2026-13-01T00:00:00Z" }, imo: { imo: "IMO9000001" }, status: { status: "gone" }, "shown status": { status: "Expected to Arrive" }, sort: { sort: "eta" }, "sort direction": { sort: "eta:up" }, "sort field": { sort: "imo:asc" }, "no port": { portOfCall: "" }, "no name": { vesselName: "" }, "sort more": { sort: "eta:asc:etd" } };
const shown = (v: any): any => ({ id: v.visitId, name: v.vesselName, imo: v.vesselId, port: v.portOfCall, eta: back(v.eta), etd: back(v.etd), ata: back(v.ata), atd: back(v.atd), status: v.status, upd: back(v.updateTime), ...(Object.keys(v).every((k) => ["visitId", "vesselName", "vesselId", "portOfCall", "eta", "etd", "ata", "atd", "status", "updateTime"].includes(k)) ? {} : { more: Object.keys(v) }) });
const rows = (): any[] => pg.all("SELECT * FROM pc2_visit ORDER BY visit_id").map((r) => ({ id: r.visit_id, port: r.port_locode, eta: back(r.eta), etd: back(r.etd), ata: back(r.ata), atd: back(r.atd), status: r.status, upd: back(r.update_time), ...(r.vessel_name === VESSEL[r.visit_id]?.[0] && r.vessel_id === VESSEL[r.visit_id]?.[1] ? {} : { vessel: [r.vessel_id, r.vessel_name] }) }));
function strike(kind: string): void {
  pg.fault = kind === "connect" ? () => "lost the disk" : kind === "read" ? (s) => (/from\s+pc2_visit/i.test(s) ? "lost the disk" : undefined) : kind === "stamp" ? (s) => (/updated_timestamp/i.test(s) ? "lost the disk" : undefined) : undefined;
  secrets.fail = kind === "secret" ? "no secrets" : undefined;
}
const key = (x: any): string => JSON.stringify(canon(x));
function adapter(): Adapter {
  return {
    match(e, o: any) {
      if (e.kind === "updated" && o.kind === "updated") return e.stamped === o.stamped && key(e.kept.map(key).sort()) === key(o.kept.map(key).sort());
      if (!e.groups || !o.list) return key(e) === key(o);
      let i = 0;
      for (const g of e.groups) { const part = o.list.slice(i, i + g.length); i += g.length; if (key(g.map(key).sort()) !== key(part.map(key).sort())) return false; }
      return e.status === o.status && i === o.list.length;
    },
    async reset([now, w, kept, stamped]) {
      await load();
      pg.reset(); clock.now = ms(now); secrets.fail = undefined; broken = undefined;
      world = w;
      for (const v of kept) pg.insert("pc2_visit", { visit_id: v.id, vessel_id: VESSEL[v.id]![1], vessel_name: VESSEL[v.id]![0], port_locode: v.port, eta: ms(v.eta), etd: v.etd === NO ? null : ms(v.etd), ata: v.ata === NO ? null : ms(v.ata), atd: v.atd === NO ? null : ms(v.atd), status: v.status, update_time: ms(v.upd) });
      if (stamped !== -NO) pg.insert("updated_timestamp", { updated_name: "PC2_VISITS", updated_time: ms(stamped), updated_by: "" });
    },
    async step(a) {
      const now = clock.now, at = (now - BASE) / HOUR;
      if (a.op === "wait") { clock.now += a.hours * HOUR; return { kind: "waited" }; }
      if (a.op === "tell") { world = [...world.filter((v) => v.id !== a.t.id), { ...a.t, upd: at }].sort((x, y) => (x.id < y.id ? -1 : 1)); return { kind: "told" }; }
      const fault = a.op === "update" ? a.f.kind : a.a.fault;
      strike(fault);
      // what it knew of the secret is old by then
      if (fault === "secret") clock.now += 365 * 864e5;
      odd = [];
      let answer: any;
      if (a.op === "update") {
        broken = fault === "source" ? BASE + (Math.floor(at / 24) + a.f.day) * 864e5 : undefined;
        if (fault === "save") {
          const t = pg.db; t.exec("CREATE TEMP TRIGGER full BEFORE INSERT ON pc2_visit WHEN NEW.visit_id = 'V2' BEGIN SELECT RAISE(ABORT, 'constraint: no room'); END");
        }
        try { await update(); } catch { /* a run that fails is tried again by its time */ }
        if (fault === "save") pg.db.exec("DROP TRIGGER full");
        answer = { kind: "updated" };
      } else {
        const q = a.a.q;
        try {
          answer = a.a.what === "one" ? await getOne({ visitId: a.a.id }) : await getAll(a.a.what === "bad" ? BADLY[a.a.id] : {
            ...(q.from === NO ? {} : { fromDateTime: iso(q.from) }), ...(q.to === NO ? {} : { toDateTime: iso(q.to) }), ...(q.port === "-" ? {} : { portOfCall: q.port }), ...(q.name === "-" ? {} : { vesselName: q.name }),
            ...(q.imo === "-" ? {} : { imo: q.imo }), ...(q.status === "-" ? {} : { status: q.status }), ...(q.field === "-" ? {} : { sort: `${q.field}:${q.dir}` }),
          });
        } catch { answer = { kind: "threw" }; }
      }
      clock.now = now; pg.fault = undefined; secrets.fail = undefined; broken = undefined;
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      if (odd.length) return { kind: odd[0] };
      if (a.op === "update") {
        const s = pg.all("SELECT * FROM updated_timestamp");
        if (s.some((x) => x.updated_name !== "PC2_VISITS")) return { kind: "something else was written" };
        return { kind: "updated", kept: rows(), stamped: s[0] ? back(s[0].updated_time) : -NO };
      }
      if (answer.kind === "threw" || answer.status !== 200) return { kind: answer.kind ?? "answer", status: answer.status };
      const body = JSON.parse(Buffer.from(answer.body, "base64").toString());
      if (a.a.what === "one") { const one = shown(body); return Date.parse(answer.timestamp) === ms(one.upd) ? { kind: "answer", status: 200, one } : { kind: "answer", status: 200, one, timestamp: answer.timestamp }; }
      return { kind: "answer", status: 200, list: body.map(shown) };
    },
  };
}
main(Object.fromEntries(["taken", "versions", "days", "faults", "asked"].map((s) => [s, { adapter }])));
