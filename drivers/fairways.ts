import "./env-fn.js";
import { captureStdout, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
// waits between attempts are passed over; what guards against waiting for ever does not strike
const later = globalThis.setTimeout;
globalThis.setTimeout = ((f: any, ms = 0, ...a: any[]) => (ms >= 5000 ? later(f, ms, ...a).unref() : later(f, 0, ...a))) as any;
Object.assign(process.env, { SECRET_ID: "the-secret", DB_USER: "user", DB_PASS: "pass", DB_URI: "x", DB_RO_URI: "x", DB_APPLICATION: "app" });
type P = [number, number];
const ring = (g: string): P[] => [...g.replace(/^[^(]*\(+|\)+$/g, "").split(",")].map((p) => p.trim().split(/\s+/).map(Number) as P);
// also what is on the edge meets
const meets = (g: any, p: any): number | null => {
  if (g === null || p === null) return null;
  const [a, b] = /^POLYGON/i.test(g) ? [g, p] : [p, g];
  const [x, y] = ring(b)[0]!, r = ring(a);
  let inside = false;
  for (let i = 0, j = r.length - 1; i < r.length; j = i++) {
    const [xi, yi] = r[i]!, [xj, yj] = r[j]!;
    if ((xj - xi) * (y - yi) === (yj - yi) * (x - xi) && Math.min(xi, xj) <= x && x <= Math.max(xi, xj) && Math.min(yi, yj) <= y && y <= Math.max(yi, yj)) return 1;
    if (yi > y !== yj > y && x < ((xj - xi) * (y - yi)) / (yj - yi) + xi) inside = !inside;
  }
  return inside ? 1 : 0;
};
const strictly = (g: any, p: any): number | null => {
  const m = meets(g, p);
  if (!m) return m;
  const [x, y] = ring(p)[0]!;
  return [[1e-9, 0], [-1e-9, 0], [0, 1e-9], [0, -1e-9]].every(([dx, dy]) => meets(g, `POINT(${x + dx!} ${y + dy!})`)) ? 1 : 0;
};
const point = (x: any, y: any): string => `POINT(${x} ${y})`;
// the first row of each, in the order asked for
const distinct = (s: string): string => {
  const m = /^\s*SELECT\s+DISTINCT\s+ON\s*\(([^)]*)\)([\s\S]*?)\bFROM\b([\s\S]*?)\bORDER\s+BY\b([\s\S]*)$/i.exec(s);
  if (!m) return s;
  const meaning = new Map([...m[2]!.matchAll(/([\w.]+)\s+as\s+(\w+)/gi)].map((x) => [x[2]!.toLowerCase(), x[1]!]));
  const order = m[4]!.replace(/;\s*$/, "").split(",").map((o) => { const w = o.trim().split(/\s+/); return [meaning.get(w[0]!.toLowerCase()) ?? w[0]!, ...w.slice(1)].join(" "); }).join(", ");
  return `SELECT * FROM (SELECT ${m[2]}, ROW_NUMBER() OVER (PARTITION BY ${m[1]} ORDER BY ${order}) AS nth_, ROW_NUMBER() OVER (ORDER BY ${order}) AS all_ FROM ${m[3]}) WHERE nth_ = 1 ORDER BY all_`;
};
const pg = new SqlPg({
  schemas: ["marine"],
  types: { brighten_sent: "timestamptz", brighten_end: "timestamptz" },
  functions: { ...basics, st_intersects: meets, st_covers: meets, st_contains: strictly, st_within: (p: any, g: any) => strictly(g, p), st_makepoint: point, st_point: point, st_setsrid: (g: any) => g, to_timestamp: (s: any) => (s === null ? null : Number(s) * 1000) },
  rewrite: distinct,
  ddl: [
    "CREATE TABLE areatraffic (id INTEGER PRIMARY KEY, name TEXT NOT NULL, brighten_duration_min INTEGER NOT NULL, brighten_sent TIMESTAMPTZ, brighten_end TIMESTAMPTZ, geometry TEXT NOT NULL)",
    "CREATE TABLE vessel (mmsi INTEGER PRIMARY KEY, timestamp BIGINT NOT NULL, name TEXT, ship_type INTEGER)",
    "CREATE TABLE vessel_location (mmsi INTEGER PRIMARY KEY, timestamp_ext BIGINT NOT NULL, x DOUBLE NOT NULL, y DOUBLE NOT NULL, sog DOUBLE NOT NULL, timestamp INTEGER NOT NULL)",
  ],
});
const AREAS = [[3, 2, 20, 60, 22, 61], [8, 3, 23, 61, 26, 64], [21, 1, 25, 61, 29, 62]] as const;
const SHIPS = [["AINO", 230000900, true], ["BELLA", 230000100, true], ["AARO", 230000500, false]] as const;
const ms = (t: number): number => BASE + t * 1000;
const back = (t: any): number => (t === null || t === undefined ? -1 : (t - BASE) / 1000);
const STRIKES: Record<string, RegExp> = { connect: /./, read: /from\s+areatraffic/i, mark: /update\s+areatraffic/i, first: /update\s+areatraffic/i };
let vis = "clear", left: Record<number, number> = {}, calls: any[] = [], odd: string[] = [];
globalThis.fetch = (async (input: any, init: any) => {
  const q: Request = input instanceof Request ? input : new Request(input, init);
  const json = (x: any, status = 200): Response => new Response(typeof x === "string" ? x : JSON.stringify(x), { status, headers: { "content-type": "application/json" } });
  if (q.url.startsWith("https://seen.example.com/")) {
    if (q.method !== "GET" || q.headers.get("token") !== "seen-key" || q.headers.get("x-api-key")) odd.push("visibility asked with another key");
    if (vis === "lost") throw new TypeError("fetch failed");
    if (vis === "missing") return json({ error: "no such" }, 404);
    if (vis === "junk") return json("<html>");
    if (vis === "empty") return json({});
    return json({ lastUpdated: "2026-02-03T12:00:00Z", visibilityInMeters: vis === "fog" ? 0 : 5000 });
  }
  if (q.url !== "https://lamps.example.com/set" || q.method !== "POST") { odd.push(`asked ${q.url}`); return json({}, 404); }
  if (q.headers.get("x-api-key") !== "lamps-key" || q.headers.get("token")) odd.push("lights asked with another key");
  const b = JSON.parse(await q.text());
  calls.push({ area: b.routeId, vis: b.visibility === null ? -1 : typeof b.visibility === "number" ? b.visibility : String(b.visibility), minutes: b.time, mmsi: typeof b.MMSI === "string" ? Number(b.MMSI) : "not text", name: b.shipName });
  if ((left[b.routeId] ?? 0) > 0) {
    const k = left[b.routeId]!--;
    if (k === 1) return json({ message: "busy" }, 503);
    if (k === 2) throw new TypeError("fetch failed");
    return json({ message: "wrong" }, 400);
  }
  return json({ LightsSetSentSuccessfully: [1, 2], LightsSetSentFailed: b.routeId === 8 ? [7] : [] });
}) as typeof fetch;
let handler: any;
const load = async (): Promise<void> => {
  await pg.ready();
  const [rw, ro] = [process.env.DB_URI!, process.env.DB_RO_URI!];
  secrets.value = { username: "user", password: "pass", proxy_host: rw, proxy_ro_host: ro, host: rw, ro_host: ro, "shiplight.lightsControlApiKey": "lamps-key", "shiplight.lightsControlEndpointUrl": "https://lamps.example.com/set", "shiplight.visibilityApiKey": "seen-key", "shiplight.visibilityEndpointUrl": "https://seen.example.com/v" };
  handler ??= (await import("@repo/marine/shiplight/src/lambda/update-lights/update-lights.js")).handler;
};
function adapter(): Adapter {
  return {
    async reset([now, seen, lit]) {
      await load();
      pg.reset(); clock.now = ms(now); vis = "clear"; secrets.fail = undefined;
      // laid out in another order than that of the numbers
      for (const i of [2, 0, 1]) { const [id, minutes, w, s, e, n] = AREAS[i]!; const l = lit[i]; pg.insert("areatraffic", { id, name: `area ${99 - id}`, brighten_duration_min: minutes, brighten_sent: l.sent === -1 ? null : ms(l.sent), brighten_end: l.end === -1 ? null : ms(l.end), geometry: `POLYGON((${w} ${s}, ${e} ${s}, ${e} ${n}, ${w} ${n}, ${w} ${s}))` }); }
      for (const [name, mmsi, known] of SHIPS) if (known) pg.insert("vessel", { mmsi, timestamp: BASE, name, ship_type: 70 });
      seen.forEach((x: any, i: number) => { if (x.at !== -1) pg.insert("vessel_location", { mmsi: SHIPS[i]![1], timestamp_ext: ms(x.at), x: x.x, y: x.y, sog: x.sog / 10, timestamp: 1 }); });
    },
    async step(a) {
      if (a.op === "wait") { clock.now += a.seconds * 1000; return { kind: "waited" }; }
      if (a.op === "see") {
        const w = a.w, mmsi = SHIPS[w.ship - 1]![1];
        pg.db.prepare("DELETE FROM vessel_location WHERE mmsi = ?").run(mmsi);
        pg.insert("vessel_location", { mmsi, timestamp_ext: clock.now - w.age * 1000, x: w.x, y: w.y, sog: w.sog / 10, timestamp: 1 });
        return { kind: "seen" };
      }
      const g = a.g;
      vis = g.vis; calls = []; odd = [];
      left = Object.fromEntries(AREAS.map(([id], i) => [id, g.fails[i]]));
      let struck = false;
      pg.fault = STRIKES[g.fault] ? (sql) => { if (!STRIKES[g.fault]!.test(sql) || (g.fault === "first" && struck)) return undefined; struck = true; return "lost the disk"; } : undefined;
      secrets.fail = g.fault === "secret" ? "no secrets" : undefined;
      const real = clock.now;
      let failed = false;
      if (secrets.fail) clock.now += 864e5;      // what it knew of the secret is old by then
      try { await handler(); } catch { failed = true; }
      clock.now = real;
      pg.fault = undefined; secrets.fail = undefined;
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      if (odd.length) return { kind: odd[0] };
      const rows = pg.all("SELECT * FROM areatraffic ORDER BY id");
      return { kind: "ran", failed, calls, lit: rows.map((r) => ({ sent: back(r.brighten_sent), end: back(r.brighten_end) })) };
    },
  };
}
main(Object.fromEntries(["places", "ships", "ages", "watch", "views", "failing", "faults"].map((s) => [s, { adapter }])));
