import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
const DOMAIN = "tester-helsinki";
Object.assign(process.env, { SECRET_ID: "the-secret", DOMAIN_NAME: DOMAIN, DOMAIN_PREFIX: "mt", DB_USER: "user", DB_PASS: "pass", DB_URI: "x", DB_RO_URI: "x", DB_APPLICATION: "app" });
// geometries are kept as GeoJSON text
type Geo = { type: string; coordinates: any };
const geo = (x: any): Geo | null => {
  if (x === null || x === undefined) return null;
  const m = /^\s*POINT\s*(?:Z\s*)?\(([^)]*)\)/i.exec(String(x));
  return m ? { type: "Point", coordinates: m[1]!.trim().split(/\s+/).map(Number) } : JSON.parse(String(x));
};
const on = (f: (g: Geo, ...a: any[]) => any) => (x: any, ...a: any[]): any => { const g = geo(x); if (g === null) return null; const r = f(g, ...a); return r !== null && typeof r === "object" ? JSON.stringify(r) : r; };
const each = (g: Geo, f: (p: number[]) => number[]): Geo => ({ type: g.type, coordinates: g.type === "Point" ? f(g.coordinates) : g.coordinates.map(f) });
const points = (g: Geo): number[][] => (g.type === "Point" ? [g.coordinates] : g.coordinates);
const postgis: Record<string, (...a: any[]) => any> = {
  st_geomfromgeojson: on((g) => g), st_setsrid: on((g) => g), st_asgeojson: on((g) => g), st_simplify: on((g) => g),
  st_force3d: on((g) => each(g, (p) => [p[0]!, p[1]!, p[2] ?? 0])),
  st_snaptogrid: on((g, by) => each(g, (p) => p.map((v) => Number((Math.round(v / by) * by).toFixed(6))))),
  st_isempty: on((g) => (points(g).length ? 0 : 1)),
  st_startpoint: on((g) => (g.type === "Point" ? null : { type: "Point", coordinates: g.coordinates[0] })),
  st_geometrytype: on((g) => `ST_${g.type}`),
  st_makeline: (a, b) => JSON.stringify({ type: "LineString", coordinates: [...points(geo(a)!), ...points(geo(b)!)] }),
};
const pg = new SqlPg({
  schemas: ["road"], serial: true,
  types: { id: "bigint", tasks: "text[]", last_point: "text", finished: "boolean", ignore: "boolean" },
  functions: { ...basics, ...postgis },
  // a second UPDATE before SET names the table once more
  rewrite: (s) => s.replace(/\bupdate\s+(\w+)\s+update\s+set\b/i, "UPDATE $1 SET").replace(/\bupdate\s+(\w+)\s+(?!set\b|as\b)(\w+)\s+set\b/i, "UPDATE $1 AS $2 SET").replace(/\breturning\s+id\b/i, "RETURNING id"),
  ddl: [
    "CREATE TABLE maintenance_tracking_domain (name TEXT PRIMARY KEY, source TEXT)",
    "CREATE TABLE maintenance_tracking_domain_contract (domain TEXT NOT NULL REFERENCES maintenance_tracking_domain(name), contract TEXT NOT NULL, name TEXT NOT NULL, source TEXT, start_date TIMESTAMPTZ, end_date TIMESTAMPTZ, data_last_updated TIMESTAMPTZ, UNIQUE(domain, contract))",
    "CREATE TABLE maintenance_tracking_domain_task_mapping (name TEXT NOT NULL, original_id TEXT NOT NULL, domain TEXT NOT NULL REFERENCES maintenance_tracking_domain(name), ignore BOOLEAN NOT NULL, info TEXT, UNIQUE(domain, original_id))",
    "CREATE TABLE maintenance_tracking_work_machine (id INTEGER PRIMARY KEY, harja_id INTEGER NOT NULL, harja_urakka_id INTEGER NOT NULL, type TEXT, UNIQUE(harja_id, harja_urakka_id))",
    "CREATE TABLE maintenance_tracking (id INTEGER PRIMARY KEY, sending_system TEXT NOT NULL, sending_time TIMESTAMPTZ NOT NULL, last_point TEXT NOT NULL, geometry TEXT NOT NULL, work_machine_id INTEGER NOT NULL REFERENCES maintenance_tracking_work_machine(id), start_time TIMESTAMPTZ NOT NULL, end_time TIMESTAMPTZ NOT NULL, direction NUMERIC, finished BOOLEAN NOT NULL, domain TEXT NOT NULL, contract TEXT, message_original_id TEXT NOT NULL, previous_tracking_id INTEGER REFERENCES maintenance_tracking(id))",
    "CREATE TABLE maintenance_tracking_task (maintenance_tracking_id INTEGER NOT NULL REFERENCES maintenance_tracking(id), task TEXT NOT NULL CHECK(task <> 'BOGUS'), UNIQUE(maintenance_tracking_id, task))",
    "CREATE TABLE data_updated (id INTEGER PRIMARY KEY, data_type TEXT NOT NULL, subtype TEXT NOT NULL DEFAULT '-', updated TIMESTAMPTZ NOT NULL, UNIQUE(data_type, subtype))",
  ],
});
pg.db.aggregate("array_agg", { start: "", step: (a: any, x: any) => (a === "" ? String(x) : `${a},${x}`), result: (a: any) => `{${a}}` });
// a place so many metres on along the meridian
const LAT = 111194.9266;
const lat = (p: number): number => Number((60 + p / LAT).toFixed(6));
const metres = (c: number[]): number | string => (c[0] === 25 && c[2] === 7 ? Math.round((c[1]! - 60) * LAT) : JSON.stringify(c));
const SEC = (t: number): number => BASE + t * 1000;
const back = (ms: any): number | string => (ms === null || ms === undefined ? -1 : (ms - BASE) / 1000);
let world: any[] = [], names: string[] = [], down = "-";
globalThis.fetch = (async (input: any, init: any) => {
  const q: Request = input instanceof Request ? input : new Request(input, init);
  const json = (x: any, status = 200): Response => new Response(JSON.stringify(x), { status, headers: { "content-type": "application/json" } });
  if (q.headers.get("API_KEY") !== "the-key") return json({}, 401);
  const u = new URL(q.url);
  if (u.origin !== "https://devices.example.com") return json({}, 400);
  if (u.pathname === "/public/api/devices/all") {
    if (down === "devices") return json({}, 404);
    // each device tells its own channels
    return json([{ id: "1", description: "d", ioChannels: names.slice(0, 1).map((name, id) => ({ id, enabled: true, name })) }, { id: "2", description: "d", ioChannels: names.slice(1).map((name, id) => ({ id, enabled: true, name })) }]);
  }
  const m = /^\/public\/api\/devices\/workevents\/alldevices\/([^/]+)\/([^/]+)$/.exec(decodeURIComponent(u.pathname));
  if (!m) return json({}, 400);
  if (down === "events") return json({}, 404);
  const [from, to] = [Date.parse(m[1]!), Date.parse(m[2]!)];
  const seen = world.filter((e) => SEC(e.t) >= from && SEC(e.t) <= to);
  return json([1, 2].map((d) => ({ deviceId: d, deviceName: `device ${d}`, workEvents: seen.filter((e) => e.dev === d).map((e) => ({ deviceId: d, deviceName: `device ${d}`, timest: new Date(SEC(e.t)).toISOString(), altitude: 7, heading: e.h, lat: lat(e.p), lon: 25, speed: 11, ioChannels: e.ch.map((name: string, id: number) => ({ id: 10 * d + id, name })) })) })).filter((d) => d.workEvents.length > 0 || d.deviceId === 2));
}) as typeof fetch;
const INFO = "TODO: Auto generated";
let handler: any;
const load = async (): Promise<void> => {
  await pg.ready();
  const [rw, ro] = [process.env.DB_URI!, process.env.DB_RO_URI!];
  secrets.value = { username: "user", password: "pass", proxy_host: rw, proxy_ro_host: ro, host: rw, ro_host: ro, "mt.apikey": "the-key", "mt.url": "https://devices.example.com" };
  handler ??= (await import("@repo/road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.js")).handler;
};
function trails(): any[] {
  const tasks = new Map<number, string[]>();
  for (const r of pg.all("SELECT * FROM maintenance_tracking_task")) tasks.set(r.maintenance_tracking_id, [...(tasks.get(r.maintenance_tracking_id) ?? []), r.task]);
  const rows = pg.all("SELECT t.*, m.harja_id AS dev, m.type AS machine FROM maintenance_tracking t JOIN maintenance_tracking_work_machine m ON t.work_machine_id = m.id ORDER BY t.id");
  return rows.map((r) => {
    const first = JSON.parse(r.geometry), pts = points(first).map(metres), prev = rows.find((x) => x.id === r.previous_tracking_id);
    const t = { dev: r.dev, start: back(r.start_time), end: back(r.end_time), pts, last: metres(JSON.parse(r.last_point).coordinates), dir: Number(r.direction), open: !r.finished, prev: prev ? (prev.dev === r.dev ? back(prev.start_time) : `of ${prev.dev}`) : -1, tasks: tasks.get(r.id) ?? [] };
    const good = r.domain === DOMAIN && r.contract === DOMAIN && r.sending_system === DOMAIN && r.message_original_id === "none" && r.machine === `domainName: ${DOMAIN} / deviceId: ${r.dev} / deviceName: device ${r.dev}` && (first.type === "Point") === (pts.length === 1);
    return good ? t : { ...t, wrong: r };
  });
}
const FAULTS: Record<string, RegExp> = { connect: /./, machine: /insert into maintenance_tracking_work_machine/i, trail: /insert into maintenance_tracking\s*\(/i, task: /insert into maintenance_tracking_task/i, mark: /update maintenance_tracking\s+(tgt\s+)?set/i, stamp: /update maintenance_tracking_domain_contract/i, checked: /data_updated/i };
function adapter(): Adapter {
  return {
    async reset([now, w, known, tr, sourced]) {
      await load();
      if (now !== 0 || w.length || tr.length) throw new Error("a run starts with nothing");
      pg.db.exec("PRAGMA foreign_keys = OFF"); pg.reset(); pg.db.exec("PRAGMA foreign_keys = ON");
      clock.now = BASE; world = []; down = "-"; secrets.fail = undefined; names = [];
      pg.insert("maintenance_tracking_domain", { name: "other", source: "s" });
      pg.insert("maintenance_tracking_domain_task_mapping", { name: "OTHER", original_id: "plough", domain: "other", ignore: false, info: null });
      if (known.length || sourced) pg.insert("maintenance_tracking_domain", { name: DOMAIN, source: sourced ? "Tester" : null });
      if (sourced) pg.insert("maintenance_tracking_domain_contract", { domain: DOMAIN, contract: DOMAIN, name: DOMAIN, source: "Tester", start_date: null, end_date: null, data_last_updated: null });
      for (const m of known) pg.insert("maintenance_tracking_domain_task_mapping", { name: m.task, original_id: m.name, domain: DOMAIN, ignore: m.ignore, info: null });
    },
    async step(a) {
      const has = (table: string): boolean => pg.all(`SELECT 1 FROM ${table} WHERE ${table === "maintenance_tracking_domain" ? "name" : "domain"} = ?`, DOMAIN).length > 0;
      if (a.op !== "go" && !has("maintenance_tracking_domain")) pg.insert("maintenance_tracking_domain", { name: DOMAIN, source: null });
      if (a.op === "map") {
        pg.db.prepare("DELETE FROM maintenance_tracking_domain_task_mapping WHERE domain = ? AND original_id = ?").run(DOMAIN, a.m.name);
        pg.insert("maintenance_tracking_domain_task_mapping", { name: a.m.task, original_id: a.m.name, domain: DOMAIN, ignore: a.m.ignore, info: null });
        return { kind: "mapped" };
      }
      if (a.op === "source") {
        if (!has("maintenance_tracking_domain_contract")) pg.insert("maintenance_tracking_domain_contract", { domain: DOMAIN, contract: DOMAIN, name: DOMAIN, source: null, start_date: null, end_date: null, data_last_updated: null });
        pg.db.prepare("UPDATE maintenance_tracking_domain_contract SET source = ? WHERE domain = ?").run(a.b ? "Tester" : null, DOMAIN);
        return { kind: "sourced" };
      }
      const g = a.g, now = (clock.now - BASE) / 1000, old = world;
      world = [...old, ...g.events.map((e: any) => ({ ...e, t: now + e.at })).filter((e: any) => !old.some((x) => x.dev === e.dev && x.t === e.t))];
      clock.now += g.wait * 1000;
      names = g.names; down = g.fault;
      pg.fault = FAULTS[g.fault] ? (sql) => (FAULTS[g.fault]!.test(sql) ? "lost the disk" : undefined) : undefined;
      secrets.fail = g.fault === "secret" ? "no secrets" : undefined;
      if (secrets.fail) clock.now += 86400000;      // what it knew of the secret is old by then
      let r: any, failed = false;
      try { r = await handler({}, {} as any, () => {}); } catch { failed = true; }
      if (secrets.fail) clock.now -= 86400000;
      pg.fault = undefined; secrets.fail = undefined; down = "-";
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      const ts = trails(), contract = pg.all("SELECT * FROM maintenance_tracking_domain_contract WHERE domain = ?", DOMAIN), checked = pg.all("SELECT * FROM data_updated");
      if (contract.length > 1 || checked.some((c) => c.data_type !== "MAINTENANCE_TRACKING_DATA_CHECKED" || c.subtype !== DOMAIN)) return { kind: "something else was written" };
      const known = pg.all("SELECT * FROM maintenance_tracking_domain_task_mapping WHERE domain = ?", DOMAIN).map((m) => ({ name: m.original_id, task: m.name, ignore: Boolean(m.ignore), ...(m.info !== null && m.info !== INFO ? { info: m.info } : {}) }));
      return { kind: "ran", failed, saved: failed ? 0 : r.saved, errors: failed ? 0 : r.errors, trails: ts, count: ts.length, known, stamped: back(contract[0]?.data_last_updated), checked: back(checked[0]?.updated) };
    },
    match(e, o) {
      const set = (x: any[]): string[] => [...new Set(x.map((y) => JSON.stringify(canon(y))))].sort();
      const f = (x: any): string => JSON.stringify(canon(x.trails ? { ...x, trails: set(x.trails.map((t: any) => ({ ...t, tasks: [...t.tasks].sort() }))), known: set(x.known) } : x));
      return f(e) === f(o);
    },
  };
}
main(Object.fromEntries(["pairs", "joins", "chain", "many", "machines", "windows", "faults", "named", "mapped"].map((s) => [s, { adapter }])));
