import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";
import { s3State, sent } from "./stubs/s3.js";
import { line } from "./stubs/sqs-extended.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
process.env.SECRET_ID = "the-secret"; process.env.SQS_BUCKET_NAME = "big-ones"; process.env.SQS_QUEUE_URL = "https://queue.example.com/1"; process.env.SQS_DLQ_BUCKET_NAME = "letters";
process.env.DB_USER = "user"; process.env.DB_PASS = "pass"; process.env.DB_URI = "x"; process.env.DB_RO_URI = "x"; process.env.DB_APPLICATION = "app";
const pg = new SqlPg({
  schemas: ["road"], serial: true,
  types: { id: "bigint", hours: "numeric" },
  functions: { ...basics },
  // what is translated keeps times as milliseconds: an hour of a number of them
  ddl: [
    "CREATE TABLE maintenance_tracking_observation_data (id INTEGER PRIMARY KEY, observation_time TIMESTAMPTZ NOT NULL CHECK(typeof(observation_time) = 'integer'), sending_time TIMESTAMPTZ NOT NULL CHECK(typeof(sending_time) = 'integer'), json TEXT NOT NULL, harja_workmachine_id INTEGER NOT NULL, harja_contract_id INTEGER NOT NULL, sending_system TEXT NOT NULL, status TEXT NOT NULL, hash TEXT NOT NULL UNIQUE, s3_uri TEXT)",
    "CREATE TABLE maintenance_tracking (id INTEGER PRIMARY KEY, domain TEXT NOT NULL, end_time TIMESTAMPTZ NOT NULL, created TIMESTAMPTZ NOT NULL, previous_tracking_id INTEGER REFERENCES maintenance_tracking(id))",
  ],
});
const minute = (m: number): number => BASE + m * 60000;
const zoned = (m: number, v: string): string => (v === "bad" ? "soon" : v === "zone" ? new Date(minute(m) + 2 * 36e5).toISOString().replace(".000Z", "+02:00") : new Date(minute(m)).toISOString());
const TEXT: Record<string, string> = { quotes: "it's $(json) $1 \\ \"quoted\" ${x} é", other: "another" };
const observation = (o: any): any => ({ tyokone: { id: 1000 + o.m, tyokonetyyppi: "Kuorma-auto" }, sijainti: { koordinaatit: { x: 25.5, y: 60.25, z: 0 }, tie: o.v }, suunta: 12.5, urakkaid: o.c, havaintoaika: zoned(o.t, o.v), suoritettavatTehtavat: ["HARJAUS", TEXT[o.v] ?? ""] });
const body = (m: any): string => {
  if (m.kind === "text") return "5";
  if (m.kind === "odd") return JSON.stringify({ otsikko: { lahettaja: { jarjestelma: "x" }, lahetysaika: zoned(0, "") } });
  return JSON.stringify({ otsikko: { lahettaja: { ...(m.sender === "-" ? {} : { jarjestelma: m.sender }), organisaatio: { nimi: "x" } }, viestintunniste: { id: m.id }, lahetysaika: zoned(m.sent, "") }, havainnot: m.obs.map((o: any) => ({ havainto: observation(o) })), ...(m.big ? { filler: "x".repeat(270000) } : {}) });
};
let mods: any;
const load = async (): Promise<void> => {
  await pg.ready();
  secrets.value = { username: "user", password: "pass", proxy_host: process.env.DB_URI!, proxy_ro_host: process.env.DB_RO_URI!, host: process.env.DB_URI!, ro_host: process.env.DB_RO_URI! };
  mods ??= {
    post: await import("@repo/road/maintenance-tracking/src/lambda/update-queue/update-queue.js"),
    take: await import("@repo/road/maintenance-tracking/src/lambda/process-queue/process-queue.js"),
    letter: await import("@repo/road/maintenance-tracking/src/lambda/process-dlq/process-dlq.js"),
    clean: await import("@repo/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.js"),
  };
};
let lost: unknown;
process.on("unhandledRejection", (e) => { lost = e ?? "something"; });
const breathe = (ms = 1): Promise<void> => new Promise((r) => setTimeout(r, ms));
/** a handler which may or may not say when it is done */
async function run(go: () => any): Promise<boolean> {
  lost = undefined;
  const before = pg.began, t = process.hrtime.bigint();
  try {
    const r = go();
    if (r && typeof r.then === "function") { await r; return false; }
  } catch { return true; }
  while (process.hrtime.bigint() - t < 3_000_000_000n) {
    await breathe();
    if (lost !== undefined) { while (pg.pg.open > 0) await breathe(); return true; }
    if (pg.began > before && pg.pg.open === 0) { await breathe(2); return lost !== undefined; }
  }
  return true;
}
const known = new Map<string, any>();
const shows = (): any[] => pg.all("SELECT * FROM maintenance_tracking_observation_data ORDER BY id").map((r) => {
  const o = known.get(r.json);
  if (!o) return `unknown observation ${r.json}`;
  if (r.harja_workmachine_id !== 1000 + o.m || r.harja_contract_id !== o.c || r.observation_time !== minute(o.t) || r.status !== "UNHANDLED") return { o, wrong: r };
  return { o, sender: r.sending_system, sent: (r.sending_time - BASE) / 60000 };
});
const tracks = (): any[] => pg.all("SELECT * FROM maintenance_tracking ORDER BY id").map((r) => ({ id: r.id, dom: r.domain, end: (r.end_time - BASE) / 60000, created: (r.created - BASE) / 60000, prev: r.previous_tracking_id ?? 0 }));
const set = (x: any[]): any => x.map((y) => JSON.stringify(canon(y))).sort();
function adapter(): Adapter {
  let files = new Map<string, string>();
  return {
    async reset([now, queue, kept, tr, filed]) {
      await load();
      pg.reset();
      clock.now = minute(now);
      line.queue = []; line.store.clear(); line.down = line.storeDown = false; secrets.fail = undefined; s3State.answer = "ok"; sent.length = 0; files = new Map();
      for (const m of queue) await (mods.post as any).handler({ body: body(m) });
      for (const e of kept) { const json = JSON.stringify(observation(e.o)); known.set(json, e.o); }
      // what is kept already was sent before
      for (const e of kept) { await mods.take.handler({ Records: [{ messageId: "k", receiptHandle: "k", md5OfBody: "", body: body({ kind: "obs", obs: [e.o], sender: e.sender === "UNKNOWN" ? "-" : e.sender, sent: e.sent, id: 0, big: false }), messageAttributes: {} }] }); }
      for (const t of [...tr].sort((a: any, b: any) => a.id - b.id)) pg.insert("maintenance_tracking", { id: t.id, domain: t.dom, end_time: minute(t.end), created: minute(t.created), previous_tracking_id: null });
      for (const t of tr) if (t.prev) pg.db.prepare("UPDATE maintenance_tracking SET previous_tracking_id = ? WHERE id = ?").run(t.prev, t.id);
      filed.forEach((b: string, i: number) => files.set(`before ${i}`, b));
    },
    async step(a) {
      if (a.op === "wait") { clock.now += a.d * 60000; return { kind: "waited" }; }
      if (a.op === "post") {
        const p = a.p, before = line.queue.length;
        for (const o of p.msg.obs) known.set(JSON.stringify(observation(o)), o);
        line.down = p.fault;
        const b = p.kind === "msg" ? body(p.msg) : p.kind === "junk" ? '{"otsikko":' : p.kind === "empty" ? "" : null;
        let r: any, ok = true;
        try { r = await mods.post.handler({ body: b }); } catch (e) { r = e; ok = false; }
        line.down = false;
        // what was refused is said to have been a wrong request, whatever it was
        if (r?.statusCode !== (ok ? 200 : 400)) return { kind: "answered", r: String(r?.statusCode ?? r) };
        const now = line.queue.at(-1);
        if (line.queue.length > before && (now.url !== process.env.SQS_QUEUE_URL || (line.store.get(now.body) ?? now.body) !== b)) return { kind: "something else was queued" };
        return { kind: "posted", ok, queued: line.queue.length };
      }
      if (a.op === "take") {
        const t = a.t, rs = line.queue.slice(0, t.n);
        pg.fault = t.fault === "connect" ? () => "no room" : t.fault === "save" ? (sql) => (/insert/i.test(sql) && sql.includes('"tie":"hit"') ? "lost the disk" : undefined) : undefined;
        line.storeDown = t.fault === "store"; secrets.fail = t.fault === "secret" ? "no secrets" : undefined;
        if (secrets.fail) clock.now += 86400000;      // what it knew of the secret is old by then
        let r: any, failed = false;
        try { r = await mods.take.handler({ Records: rs }); } catch { failed = true; }
        if (secrets.fail) clock.now -= 86400000;
        pg.fault = undefined; line.storeDown = false; secrets.fail = undefined;
        if (!failed) line.queue.splice(0, rs.length);
        if (pg.unsupported.length) { const u = pg.unsupported.splice(0); if (!u.every((x) => /"tie":"bad"|NaN/.test(x))) throw new Error(`SQL not understood: ${u[0]}`); }
        return { kind: "taken", failed, each: failed ? [] : r.map((x: any) => x.status === "fulfilled"), kept: shows() };
      }
      if (a.op === "letter") {
        sent.length = 0;
        let failed = false;
        try { await mods.letter.handler({ Records: a.l.map((b: string, i: number) => ({ messageId: `l${i}`, body: b, messageAttributes: {} })) }); } catch { failed = true; }
        for (const c of sent) if (c.input.Bucket === "letters") files.set(c.input.Key, c.input.Body);
        return { kind: failed ? "failed" : "filed", filed: [...files.values()] };
      }
      const F: Record<string, RegExp> = { connect: /./, oldest: /min\s*\(/i, clear: /update\s+maintenance_tracking/i, delete: /delete/i };
      pg.fault = F[a.f] ? (sql) => (F[a.f]!.test(sql) ? "lost the disk" : undefined) : undefined;
      secrets.fail = a.f === "secret" ? "no secrets" : undefined;
      if (secrets.fail) clock.now += 86400000;
      const failed = await run(() => mods.clean.handler({}, {} as any, () => {}));
      if (secrets.fail) clock.now -= 86400000;
      pg.fault = undefined; secrets.fail = undefined;
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      return { kind: "cleaned", failed, tracks: tracks() };
    },
    match(e, o) {
      const f = (x: any): string => JSON.stringify(canon({ ...x, ...(x.kept ? { kept: set(x.kept) } : {}), ...(x.filed ? { filed: set(x.filed) } : {}), ...(x.tracks ? { tracks: set(x.tracks) } : {}) }));
      return f(e) === f(o);
    },
  };
}
main(Object.fromEntries(["one", "again", "many", "faults", "letters", "clean", "ages"].map((s) => [s, { adapter }])));
