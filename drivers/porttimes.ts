import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import vm from "node:vm";
import { secrets } from "./stubs/apps.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 2, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
process.env.SECRET_ID = "the-secret";
process.env.DB_USER = "user"; process.env.DB_PASS = "pass"; process.env.DB_URI = "x"; process.env.DB_RO_URI = "x"; process.env.DB_APPLICATION = "app";
const pg = new SqlPg({
  functions: basics,
  schemas: ["portactivity"],
  types: { count: "bigint", mmsi: "numeric", imo: "numeric" },
  ddl: [
    `CREATE TABLE port_call_timestamp (id INTEGER PRIMARY KEY AUTOINCREMENT, event_type TEXT NOT NULL CHECK (event_type IN ('ATA','ATB','ATD','ETA','ETB','ETD','ETP','RPS','PPS','APS','APC')),
      event_time TIMESTAMPTZ NOT NULL, event_time_confidence_lower TEXT, event_time_confidence_lower_diff INTEGER, event_time_confidence_upper TEXT, event_time_confidence_upper_diff INTEGER,
      event_source TEXT NOT NULL, record_time TIMESTAMPTZ NOT NULL, location_locode TEXT NOT NULL CHECK (length(location_locode) <= 5), location_terminal TEXT, location_berth TEXT, location_berth_position TEXT, location_ship_side TEXT,
      ship_mmsi NUMERIC, ship_imo NUMERIC NOT NULL, portcall_id NUMERIC, location_portarea TEXT CHECK (length(location_portarea) <= 6), location_from_locode TEXT CHECK (length(location_from_locode) <= 5), source_id TEXT,
      CHECK (portcall_id IS NOT NULL OR event_source = 'Awake.AI Pred'))`,
    `CREATE UNIQUE INDEX k ON port_call_timestamp (ship_imo, event_source, location_locode, event_type, event_time, record_time, portcall_id)`,
    `CREATE TABLE pilotage (id BIGINT PRIMARY KEY, vessel_imo INTEGER, vessel_mmsi INTEGER, vessel_eta TIMESTAMPTZ, pilot_boarding_time TIMESTAMPTZ, pilotage_end_time TIMESTAMPTZ NOT NULL, schedule_updated TIMESTAMPTZ NOT NULL, schedule_source TEXT NOT NULL, state TEXT NOT NULL, vessel_name TEXT NOT NULL, start_code TEXT NOT NULL, start_berth TEXT, end_code TEXT NOT NULL, end_berth TEXT)`,
    `CREATE TABLE vessel (mmsi NUMERIC, imo NUMERIC, name TEXT, timestamp BIGINT)`,
    `CREATE TABLE port_call (port_call_id NUMERIC, mmsi NUMERIC, imo_lloyds NUMERIC, port_to_visit TEXT, port_call_timestamp TIMESTAMPTZ, vessel_name TEXT)`,
    `CREATE TABLE port_area_details (port_call_id NUMERIC, eta TIMESTAMPTZ, etd TIMESTAMPTZ, ata TIMESTAMPTZ, atd TIMESTAMPTZ)`,
    `CREATE TABLE vessel_location (mmsi NUMERIC, sog DOUBLE, nav_stat INTEGER, modified TIMESTAMPTZ)`,
  ],
});
const at = (m: number): number => BASE + m * 60000;
const iso = (m: number): string => new Date(at(m)).toISOString();
// an average may fall on half a minute: it is told in whole ones
const mins = (t: any): number => Math.floor((Date.parse(t) - BASE) / 60000);
const one = (x: any[]): number | null => (x.length ? at(x[0]) : null);
const bodyOf = (m: any): string => {
  if (m.flaw === "not json") return "{\"eventType\": ";
  const t: any = { eventType: m.type, eventTime: iso(m.et), recordTime: iso(m.rt), source: m.source, ship: { ...(m.mmsi ? { mmsi: m.mmsi } : {}), ...(m.imo ? { imo: m.imo } : {}) },
    location: { port: m.port, ...(m.area ? { portArea: m.area } : {}), ...(m.from ? { from: m.from } : {}) }, ...(m.pc ? { portcallId: m.pc } : {}), ...(m.sid ? { sourceId: m.sid } : {}) };
  const lo = m.lo / 10, hi = m.hi / 10;
  if (m.conf !== "none") Object.assign(t, { eventTimeConfidenceLowerDiff: lo, eventTimeConfidenceUpperDiff: hi });
  if (m.conf === "text") Object.assign(t, { eventTimeConfidenceLowerDiff: "long", eventTimeConfidenceUpperDiff: "short" });
  if (m.conf === "lower text") t.eventTimeConfidenceLowerDiff = "long";
  if (m.conf === "upper text") t.eventTimeConfidenceUpperDiff = "long";
  if (m.conf === "lower only") delete t.eventTimeConfidenceUpperDiff;
  if (m.conf === "upper only") delete t.eventTimeConfidenceLowerDiff;
  switch (m.flaw) {
    case "no type": delete t.eventType; break;
    case "unknown type": t.eventType = "ETX"; break;
    case "no time": delete t.eventTime; break;
    case "bad time": t.eventTime = "yesterday"; break;
    case "no record time": delete t.recordTime; break;
    case "bad record time": t.recordTime = "2026-13-40T10:00:00Z"; break;
    case "no source": delete t.source; break;
    case "no ship": delete t.ship; break;
    case "no location": delete t.location; break;
    case "no port": delete t.location.port; break;
  }
  return JSON.stringify(t);
};
const TABLE = (): any[] => pg.all("SELECT DISTINCT event_type AS type, event_time AS et, record_time AS rt, event_source AS source, coalesce(ship_mmsi,0) AS mmsi, ship_imo AS imo, location_locode AS port, coalesce(location_portarea,'') AS area, coalesce(location_from_locode,'') AS \"from\", coalesce(portcall_id,0) AS pc, coalesce(source_id,'') AS sid, coalesce(event_time_confidence_lower_diff,0) AS lo, coalesce(event_time_confidence_upper_diff,0) AS hi FROM port_call_timestamp")
  .map((r) => ({ ...r, et: (r.et - BASE) / 60000, rt: (r.rt - BASE) / 60000 }));
// a browser that runs the scripts of the page and sees what is put into the table of times
function browse(html: string): any[] {
  let told: any[] = [];
  const R: any = {
    prop: (k: string) => (x: any) => x[k], toPairs: Object.entries,
    map: (f: any, xs?: any[]) => (xs ? xs.map((x) => f(x)) : (ys: any[]) => ys.map((y) => f(y))),
    sortBy: (f: any) => (xs: any[]) => [...xs].sort((a, b) => (f(a) < f(b) ? -1 : f(a) > f(b) ? 1 : 0)),
    groupBy: (f: any) => (xs: any[]) => xs.reduce((m, x) => { (m[f(x)] ??= []).push(x); return m; }, {}),
    compose: (...fs: any[]) => (x: any) => fs.reduceRight((y, f) => f(y), x),
  };
  const moment = (t?: any): any => { const d = new Date(t?.ms ?? t ?? Date.now()); const m = { ms: d.getTime(), local: () => m, format: (f: string) => `${f} ${d.toISOString()}`, valueOf: () => d.getTime() }; return m; };
  const $ = (sel: string): any => ({ bootstrapTable: (o: any) => { if (sel.includes("aikalista")) told = o.data; for (const r of o.data) for (const c of o.columns) if (c.formatter) c.formatter(r[c.field], r); return { removeClass: () => 0 }; } });
  const context = vm.createContext({ R, moment, $, Date });
  // a script ends at the first end tag, whatever stands around it
  for (const m of html.matchAll(/<script([^>]*)>([\s\S]*?)<\/script/gi)) if (!/\bsrc\s*=/.test(m[1]!)) vm.runInContext(m[2]!, context);
  return told;
}
let mods: any;
async function load(): Promise<any> {
  await pg.ready();
  mods ??= {
    queue: await import("@repo/marine/portactivity/src/lambda/process-queue/process-queue.js"),
    ask: await import("@repo/marine/portactivity/src/lambda/get-timestamps/get-timestamps.js"),
    purge: await import("@repo/marine/portactivity/src/lambda/delete-old-timestamps/delete-old-timestamps.js"),
    page: await import("@repo/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.js"),
    list: await import("@repo/marine/portactivity/src/service/shiplist.js"),
    times: await import("@repo/marine/portactivity/src/service/timestamps.js"),
    db: await import("@lib/database/database.js"),
  };
  return mods;
}
function adapter(): Adapter {
  const sortedBy = (xs: any[], f: (x: any) => number): boolean => xs.every((x, i) => i === 0 || f(xs[i - 1]) <= f(x));
  return {
    async reset([w, rows, pilotages, now]) {
      await load();
      secrets.value = { username: "user", password: "pass", host: process.env.DB_URI!, ro_host: process.env.DB_RO_URI!, "shiplist.auth": "word" };
      pg.reset();
      clock.now = at(now);
      for (const v of w.vessels) pg.insert("vessel", { mmsi: v.mmsi, imo: v.imo, name: v.name, timestamp: at(v.at) });
      for (const c of w.calls) {
        pg.insert("port_call", { port_call_id: c.id, mmsi: c.mmsi || null, imo_lloyds: c.imo || null, port_to_visit: c.port, port_call_timestamp: at(c.at), vessel_name: c.name });
        pg.insert("port_area_details", { port_call_id: c.id, eta: one(c.eta), etd: one(c.etd), ata: one(c.ata), atd: one(c.atd) });
      }
      for (const v of w.seen) pg.insert("vessel_location", { mmsi: v.mmsi, sog: v.sog / 10, nav_stat: v.nav, modified: at(v.at) });
      for (const r of rows) pg.insert("port_call_timestamp", { event_type: r.type, event_time: at(r.et), record_time: at(r.rt), event_source: r.source, ship_mmsi: r.mmsi || null, ship_imo: r.imo, location_locode: r.port, location_portarea: r.area || null, location_from_locode: r.from || null, portcall_id: r.pc || null, source_id: r.sid || null, event_time_confidence_lower_diff: r.lo || null, event_time_confidence_upper_diff: r.hi || null });
      pilotages.forEach((p: number, i: number) => pg.insert("pilotage", { id: i + 1, pilotage_end_time: at(p), schedule_updated: at(p), schedule_source: "x", state: "ORDER", vessel_name: "x", start_code: "x", end_code: "x" }));
    },
    async step(a) {
      let out: any = "-";
      if (a.op === "deliver") {
        const faults = a.batch.filter((m: any) => m.fault);
        pg.fault = (sql) => (faults.length && /insert\s+into\s+port_call_timestamp/i.test(sql) && faulty() ? "the disk is full" : undefined);
        // which message is being worked on is told by the order of insertions: only messages that reach the table count
        let reached = 0;
        const reaching = a.batch.filter((m: any) => m.flaw === "none");
        const faulty = (): boolean => reaching[reached++]?.fault ?? false;
        const rs: any[] = await mods.queue.handlerFn()({ Records: a.batch.map((m: any, i: number) => ({ messageId: `m${i}`, body: bodyOf(m) })) });
        out = rs.map((r) => (r.status === "rejected" ? ["failed"] : r.value === undefined ? ["left"] : ["saved", r.value.ship_imo, r.value.location_locode, r.value.locodeChanged]));
      } else if (a.op === "ask") {
        const ev = a.by === "port" ? { locode: a.typed } : { [a.by]: a.by === "source" ? a.v : a.id, ...(a.also ? { mmsi: a.also } : {}) };
        const r = await mods.ask.handler(ev);
        if (r.status !== 200) out = { status: r.status };
        else {
          const xs: any[] = JSON.parse(Buffer.from(r.body, "base64").toString("utf8"));
          out = { status: 200, sorted: sortedBy(xs, (x) => Date.parse(x.eventTime)), told: xs.map((x) => ({ type: x.eventType, et: mins(x.eventTime), rt: mins(x.recordTime), source: x.source, mmsi: x.ship.mmsi ?? 0, imo: x.ship.imo ?? 0, port: x.location.port, area: x.location.portArea ?? "", from: x.location.from ?? "", pc: x.portcallId ?? 0, sid: x.sourceId ?? "", lo: x.eventTimeConfidenceLowerDiff ?? 0, hi: x.eventTimeConfidenceUpperDiff ?? 0 })) };
        }
      } else if (a.op === "list") {
        const xs: any[] = await mods.db.inDatabaseReadonly((db: any) => mods.list.getShiplist(db, a.port, a.h));
        out = { sorted: sortedBy(xs, (x) => Date.parse(x.eventTime)), told: xs.map((x) => ({ type: x.eventType, et: mins(x.eventTime), rt: mins(x.recordTime), source: x.source, imo: x.ship.imo, pc: x.portcallId ?? 0, name: x.ship_name })) };
      } else if (a.op === "page") {
        const r = await mods.page.handler({ queryStringParameters: { ...(a.auth === "none" ? {} : { auth: a.auth === "right" ? "word" : "Word" }), ...(a.typed ? { locode: a.typed } : {}), ...(a.h ? { interval: String(a.h) } : {}) } });
        if (r.statusCode !== 200) out = { status: r.statusCode };
        else {
          try {
            const xs = browse(r.body);
            out = { status: r.headers["content-type"] === "text/html" ? 200 : "not a page", sorted: sortedBy(xs, (x) => Date.parse(x.event_time)), told: xs.map((x) => ({ type: x.event_type, et: mins(x.event_time), rt: mins(x.record_time), source: x.source, imo: x.ship_imo, pc: x.portcall_id ?? 0, name: x.ship_name })) };
          } catch (e) { out = { status: 200, broken: String(e) }; }
        }
      } else if (a.op === "etaships") {
        const xs: any[] = await mods.times.findETAShipsByLocode(a.ports);
        out = xs.map((x) => ({ imo: x.imo, port: x.locode, area: x.port_area_code ?? "", pc: x.portcall_id, et: (x.eta.getTime() - BASE) / 60000 }));
      } else if (a.op === "tick") clock.now += a.m * 60000;
      else if (a.op === "purge") await mods.purge.handler();
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      return { out, rows: TABLE(), pilotages: pg.all("SELECT pilotage_end_time AS t FROM pilotage").map((x) => (x.t - BASE) / 60000) };
    },
    match(e, o) {
      const set = (xs: any[]): string => JSON.stringify(xs.map((x) => JSON.stringify(canon(x))).sort());
      if (set(e.rows) !== set(o.rows) || set(e.pilotages) !== set(o.pilotages)) return false;
      if (e.out && e.out.told) return e.out.status === o.out.status && o.out.sorted === true && Array.isArray(o.out.told) && set(e.out.told) === set(o.out.told);
      if (Array.isArray(o.out) && o.out.length > 0 && !Array.isArray(o.out[0])) return set(e.out) === set(o.out);
      return JSON.stringify(canon(e.out)) === JSON.stringify(canon(o.out));
    },
  };
}
main({ doubles: { adapter }, page: { adapter }, judge: { adapter }, find: { adapter }, history: { adapter }, serve: { adapter }, merge: { adapter }, lists: { adapter }, etaships: { adapter } });
