import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
process.env.SECRET_ID = "the-secret";
process.env.DB_USER = "user"; process.env.DB_PASS = "pass"; process.env.DB_URI = "x"; process.env.DB_RO_URI = "x"; process.env.DB_APPLICATION = "app";
// JSON_AGG(x) -> json_group_array(json(x)): the parenthesis that closes it is found by counting
const aggregates = (s: string): string => {
  for (let m; (m = /\bJSON_AGG\s*\(/i.exec(s)); ) {
    let depth = 1, i = m.index + m[0].length;
    for (; depth > 0; i++) depth += s[i] === "(" ? 1 : s[i] === ")" ? -1 : 0;
    s = `${s.slice(0, m.index)}json_group_array(json(${s.slice(m.index + m[0].length, i)})${s.slice(i)}`;
  }
  return s;
};
const META = "id TEXT PRIMARY KEY, deleted BOOLEAN NOT NULL";
const pg = new SqlPg({
  schemas: ["marine"],
  types: { restrictions: "json", suspensions: "json", dirwaypoints: "json", queues: "json", activities: "json", version: "integer" },
  functions: {
    ...basics,
    string_to_array: (s: any, sep: any) => (s === null ? null : JSON.stringify(String(s).split(sep))),
    // booleans and times keep their types inside a JSON object
    json_build_object: (...kv: any[]) => { const o: any = {}; for (let i = 0; i < kv.length; i += 2) { const k = kv[i], x = kv[i + 1]; o[k] = x === null ? null : /_time$/.test(k) ? new Date(Number(x)).toISOString() : /^(prenotification|ports_closed)$/.test(k) ? !!x : x; } return JSON.stringify(o); },
  },
  rewrite: (s) => aggregates(s.replace(/'-infinity'/g, "-9e15").replace(/'infinity'/g, "9e15")),
  ddl: [
    `CREATE TABLE wn_location (${META}, name TEXT NOT NULL, type TEXT NOT NULL, locode_list TEXT, nationality TEXT, latitude DOUBLE, longitude DOUBLE, winterport BOOLEAN)`,
    `CREATE TABLE wn_restriction (${META}, location_id TEXT NOT NULL, text_compilation TEXT, start_time TIMESTAMPTZ, end_time TIMESTAMPTZ)`,
    `CREATE TABLE wn_vessel (${META}, name TEXT NOT NULL, callsign TEXT, shortcode TEXT, imo INTEGER, mmsi INTEGER, type TEXT)`,
    `CREATE TABLE wn_activity (${META}, icebreaker_id TEXT NOT NULL, vessel_id TEXT, type TEXT, reason TEXT, public_comment TEXT, start_time TIMESTAMPTZ, end_time TIMESTAMPTZ)`,
    `CREATE TABLE wn_source (${META}, name TEXT, shortname TEXT, nationality TEXT, type TEXT, vessel_id TEXT)`,
    `CREATE TABLE wn_port_suspension (${META}, start_time TIMESTAMPTZ, end_time TIMESTAMPTZ, prenotification BOOLEAN, ports_closed BOOLEAN, due_to TEXT, specifications TEXT)`,
    `CREATE TABLE wn_port_suspension_location (${META}, suspension_id TEXT NOT NULL, location_id TEXT NOT NULL)`,
    `CREATE TABLE wn_queue (${META}, icebreaker_id TEXT NOT NULL, vessel_id TEXT NOT NULL, start_time TIMESTAMPTZ, end_time TIMESTAMPTZ, order_num INTEGER)`,
    `CREATE TABLE wn_dirway (${META}, name TEXT NOT NULL, description TEXT)`,
    `CREATE TABLE wn_dirwaypoint (${META}, dirway_id TEXT NOT NULL, order_num INTEGER, name TEXT, latitude DOUBLE, longitude DOUBLE)`,
    `CREATE TABLE wn_data_version (table_name TEXT PRIMARY KEY, version INTEGER NOT NULL, modified TIMESTAMPTZ)`,
    `CREATE TABLE updated_timestamp (updated_name TEXT PRIMARY KEY, updated_time TIMESTAMPTZ, updated_by TEXT)`,
  ],
});
const iso = (m: number): string => new Date(BASE + m * 60000).toISOString();
const NONE = -999;
const mins = (t: any): any => (t === null ? NONE : t === undefined ? "missing" : (Date.parse(t) - BASE) / 60000);
const str = (x: any): any => (x === null ? "-" : x === undefined ? "missing" : x);
const num = (x: any): any => (x === null ? 0 : x === undefined ? "missing" : x);
// the source of the data, and how it fails
interface Obj { kind: string; id: string; rv: number; gone: boolean; f: any }
let source: Map<string, Obj> = new Map(), version = 1, noversion = false, failing: string[] = [], mid: any[] = [], asked: string[] = [];
const change = (b: any[]): void => { version++; for (const c of b) source.set(`${c.kind}/${c.id}`, { kind: c.kind, id: c.id, rv: version, gone: c.gone, f: c.f }); };
const wire = (o: Obj): any => {
  if (o.gone) return { id: o.id, rv: o.rv, change_time: iso(0), deleted: true };
  const r: any = { id: o.id, rv: o.rv, change_time: iso(0) };
  for (const [k, x] of Object.entries<any>(o.f)) {
    if (k === "codes") continue;
    if (/_time$/.test(k)) { if (x !== NONE) r[k] = iso(x); } else if (x !== "-" && !((k === "imo" || k === "mmsi") && x === 0)) r[k] = x;
  }
  return r;
};
let fails = 0;
globalThis.fetch = (async (input: any, init: any) => {
  const q: Request = input instanceof Request ? input : new Request(input, init);
  const json = (x: any, status = 200): Response => new Response(JSON.stringify(x), { status, headers: { "content-type": "application/json" } });
  if (q.headers.get("authorization") !== "Basic word") return json({}, 401);
  const u = new URL(q.url);
  if (`${u.origin}${u.pathname}` === "https://ibnet.example.com/rest/") {
    if (noversion) return json({}, 403);
    const at = version;
    // from here on the run is under way
    if (mid.length) { const b = mid; mid = []; change(b); }
    return json({ fromRv: 0, toRv: at });
  }
  const kind = u.pathname.replace("/rest/", "");
  if (failing.includes(kind)) { fails++; return fails % 3 === 0 ? json({}, 404) : fails % 3 === 1 ? new Response("[{\"id\":", { status: 200 }) : json([{ id: "x" }], 403); }
  const from = Number(u.searchParams.get("from")), to = Number(u.searchParams.get("to"));
  asked.push(kind);
  return json([...source.values()].filter((o) => o.kind === kind && o.rv > from && o.rv <= to).map(wire));
}) as any;
let mods: any;
async function load(): Promise<any> {
  await pg.ready();
  secrets.value = { username: "user", password: "pass", proxy_host: process.env.DB_URI!, proxy_ro_host: process.env.DB_RO_URI!, "ibnet.url": "https://ibnet.example.com/rest/", "ibnet.authHeaderValue": "word" };
  mods ??= {
    update: await import("@repo/marine/winter-navigation/src/lambda/update-data/update-data.js"),
    locations: await import("@repo/marine/winter-navigation/src/lambda/get-locations/get-locations.js"),
    vessels: await import("@repo/marine/winter-navigation/src/lambda/get-vessels/get-vessels.js"),
    dirways: await import("@repo/marine/winter-navigation/src/lambda/get-dirways/get-dirways.js"),
  };
  return mods;
}
const body = (r: any): any => JSON.parse(Buffer.from(r.body, "base64").toString("utf8"));
const location = (f: any): any => ({ name: f.properties.name, type: f.properties.type, locodes: f.properties.locodeList, nation: f.properties.nationality, at: f.geometry.type === "Point" ? f.geometry.coordinates : f.geometry.type, winter: f.properties.winterport,
  restrictions: f.properties.restrictions.map((r: any) => ({ start: mins(r.startTime), end: mins(r.endTime), text: r.textCompilation })),
  suspensions: f.properties.suspensions.map((s: any) => ({ start: mins(s.startTime), end: mins(s.endTime), pre: s.prenotification, closed: s.portsClosed, due: s.dueTo, more: str(s.specifications) })) });
const side = (q: any): any => ({ side: q.assistingVessel && q.assistedVessel ? "both" : q.assistingVessel ? "by" : q.assistedVessel ? "to" : "none", other: ((o) => (o ? { imo: num(o.imo), mmsi: num(o.mmsi), name: str(o.name) } : { imo: 0, mmsi: 0, name: "-" }))(q.assistingVessel ?? q.assistedVessel) });
const vessel = (v: any): any => ({ name: v.name, imo: num(v.imo), mmsi: num(v.mmsi), callsign: str(v.callSign), shortcode: str(v.shortcode), type: str(v.type),
  queues: v.plannedAssistances.map((q: any) => ({ start: mins(q.startTime), end: mins(q.endTime), order: q.queuePosition, ...side(q) })),
  activities: v.activities.map((a: any) => ({ start: mins(a.startTime), end: mins(a.endTime), type: a.type, reason: str(a.reason), comment: str(a.publicComment), ...side(a) })) });
// when the answer says it was brought up to date: in the header and in the body alike
const updated = (r: any, t: any): any => { const m = t === null || t === undefined ? -1 : mins(t); const h = r.timestamp === undefined ? -1 : mins(new Date(r.timestamp).toISOString()); return m === h ? m : `body ${m} header ${h}`; };
async function locations(asks: string[]): Promise<any> {
  const r = await mods.locations.handler({});
  if (r.status !== 200) return { status: r.status };
  const b = body(r);
  const one: any = {};
  for (const c of asks) { const x = await mods.locations.handler({ locode: c }); one[c] = x.status !== 200 ? { status: x.status } : { status: 200, it: location(body(x)) }; }
  return { all: b.features.map(location), updated: updated(r, b.lastUpdated), one };
}
async function vessels(asks: any[]): Promise<any> {
  let up: any = -1;
  const got: any[] = [];
  for (const a of asks) {
    const r = await mods.vessels.handler({ ...(a.id ? { vesselId: String(a.id) } : {}), ...(a.from === NONE ? {} : { activeFrom: iso(a.from) }), ...(a.to === NONE ? {} : { activeTo: iso(a.to) }) });
    if (r.status !== 200) { got.push({ ask: a, is: { status: r.status } }); continue; }
    const b = body(r);
    const u = updated(r, b.lastUpdated);
    if (!got.some((g) => g.is.status === 200)) up = u; else if (u !== up) up = "different";
    got.push({ ask: a, is: { status: 200, all: a.id ? [vessel(b)] : b.vessels.map(vessel) } });
  }
  return { asked: got, updated: up };
}
async function dirways(): Promise<any> {
  const r = await mods.dirways.handler({});
  if (r.status !== 200) return { status: r.status };
  const b = body(r);
  return { all: b.features.map((f: any) => ({ name: f.properties.name, text: f.properties.description, line: f.geometry.type === "Point" ? [f.geometry.coordinates] : f.geometry.coordinates.length < 2 ? "a line of one point" : f.geometry.coordinates })), updated: updated(r, b.lastUpdated) };
}
const sets = (x: any): any => (Array.isArray(x) ? x.map((y) => JSON.stringify(canon(y))).sort() : x);
const tidy = (o: any): any => {
  if (!o || typeof o !== "object") return o;
  const deep = (l: any): any => ({ ...l, ...(l.restrictions ? { restrictions: sets(l.restrictions), suspensions: sets(l.suspensions) } : {}), ...(l.queues ? { queues: sets(l.queues), activities: sets(l.activities) } : {}) });
  const r: any = { ...o };
  if (r.all) r.all = sets(r.all.map(deep));
  if (r.one) r.one = Object.fromEntries(Object.entries<any>(r.one).map(([k, x]) => [k, x.it ? { ...x, it: deep(x.it) } : x]));
  if (r.asked) r.asked = sets(r.asked.map((x: any) => ({ ask: { id: x.ask.id, from: x.ask.from, to: x.ask.to }, is: x.is.all ? { ...x.is, all: sets(x.is.all.map(deep)) } : x.is })));
  return r;
};
const of = (part: string) => (params: any): Adapter => {
  return {
    lazy: true,
    async reset() {
      await load();
      pg.reset();
      source = new Map(); version = 1; clock.now = BASE; noversion = false; failing = []; mid = []; 
    },
    async step(a, again) {
      let out = "-";
      if (a.op === "change") change(a.b);
      else {
        noversion = a.noversion; failing = a.fail; mid = a.b;
        let n = 0, m = 0;
        pg.fault = a.crash === "none" ? undefined : (sql) => {
          const w = /^\s*(?:insert\s+into|update)\s+"?(\w+)/i.exec(sql)?.[1];
          // the second thing that is written of one kind
          if (a.crash === "second") return w && /^wn_(?!data_version)/.test(w) && ++m === 2 ? "lost the disk" : undefined;
          return w === a.crash && ++n === 1 ? "lost the disk" : undefined;
        };
        try { await mods.update.handler(); out = "done"; } catch { out = "failed"; }
        pg.fault = undefined;
        if (a.crash !== "none") out = "crashed";
      }
      clock.now += 60000;
      if (again) return;
      const served = part === "locations" ? await locations(params.asks) : part === "vessels" ? await vessels(params.asks) : await dirways();
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      return { out, served };
    },
    match(e, o) {
      if (e.out !== o.out) return false;
      if (o.served.asked && !e.names.includes("any")) for (const x of o.served.asked) for (const y of x.is.all ?? []) if (!e.names.includes(y.name)) return `${y.name} has been withdrawn`;
      if (e.dirty) return true;
      const x = tidy(e.served), y = tidy(o.served);
      if (x.updated === -2) { x.updated = y.updated; }
      return JSON.stringify(canon(x)) === JSON.stringify(canon(y));
    },
  };
};
const suites = { locations: { adapter: of("locations") }, vessels: { adapter: of("vessels") }, dirways: { adapter: of("dirways") } };
main({ ...suites, ...Object.fromEntries(Object.entries(suites).map(([k, x]) => [`${k}-back`, x])) });
