import "./env-rail.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { clock, fakeDate } from "./sqlpg.js";
import { mysql, open } from "./stubs/mysql2.js";
import { queue } from "./stubs/sqs.js";
import { handler as hear } from "@repo/rail/rami/src/lambda/process-sm-queue/process-sm-queue.js";
import { handler as follow } from "@repo/rail/rami/src/lambda/process-udot-queue/process-udot-queue.js";
import { handler as clean } from "@repo/rail/rami/src/lambda/delete-old-data/delete-old-data.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
const TABLE: [number, number, string, string, number, number][] = [[11, 274, "2026-02-03", "HKI", 0, 1], [12, 274, "2026-02-03", "PSL", 5, 0], [13, 274, "2026-02-03", "PSL", 5, 1], [14, 274, "2026-02-03", "TKL", 5, 0], [15, 274, "2026-02-03", "TKL", 6, 0], [21, 274, "2026-02-04", "HKI", 0, 1], [31, 275, "2026-02-03", "HKI", 0, 1], [41, 274, "2026-02-03", "HKI", 0, 1]];
const sqlTime = (sec: number): string => new Date(BASE + sec * 1000).toISOString().slice(0, 19).replace("T", " ");
const DDL = [
  "CREATE TABLE time_table_row (attap_id INTEGER PRIMARY KEY, train_number INTEGER, departure_date TEXT, station_short_code TEXT, scheduled_time TEXT, type INTEGER)",
  "CREATE TABLE rami_udot (train_number INTEGER NOT NULL, train_departure_date TEXT NOT NULL, attap_id INTEGER NOT NULL, unknown_delay INTEGER NOT NULL, unknown_track INTEGER NOT NULL, created_db TEXT NOT NULL DEFAULT (CURRENT_TIME_OF_DB()), model_updated_time TEXT, PRIMARY KEY (train_departure_date, train_number, attap_id))",
  "CREATE TABLE rami_udot_history (n INTEGER PRIMARY KEY AUTOINCREMENT, rami_message_id TEXT NOT NULL, train_number INTEGER NOT NULL, train_departure_date TEXT NOT NULL, attap_id INTEGER NOT NULL, unknown_delay INTEGER NOT NULL, unknown_track INTEGER NOT NULL, created_db TEXT NOT NULL DEFAULT (CURRENT_TIME_OF_DB()))",
  "CREATE TABLE rami_stop_monitoring_message (n INTEGER PRIMARY KEY AUTOINCREMENT, rami_message_id TEXT NOT NULL, train_number INTEGER NOT NULL, train_departure_date TEXT NOT NULL, message TEXT NOT NULL, created_db TEXT NOT NULL DEFAULT (CURRENT_TIME_OF_DB()))",
];
// as the source writes times: in UTC, without saying so
const wall = (sec: number): string => new Date(BASE + sec * 1000).toISOString().slice(0, 19);
const call = (c: any, i: number): any => ({
  arrivalBoardingActivity: "alighting", departureBoardingActivity: c.boards ? "boarding" : "noBoarding",
  ...(c.arr === -1 ? {} : { aimedArrivalTime: wall(c.arr), ...(c.arrKnown ? { expectedArrivalTime: wall(c.arr + 600) } : {}) }),
  ...(c.dep === -1 ? {} : { aimedDepartureTime: wall(c.dep), ...(c.depKnown ? { expectedDepartureTime: wall(c.dep + 600) } : {}) }),
  arrivalStopAssignment: { aimedQuayName: "10", aimedQuayRef: "Q10", ...(c.arrTrack ? { expectedQuayName: "10" } : {}) },
  departureStopAssignment: { aimedQuayName: "10", aimedQuayRef: "Q10", ...(c.depTrack ? { expectedQuayName: "11" } : {}) },
  order: i + 1, stopPointName: c.at, stopPointRef: c.at, visitNumber: 1,
});
const none = { at: "HKI", boards: false, arr: -1, dep: -1 };
const body = (m: any): string => {
  if (m.kind === "junk") return "{\"headers\":";
  const calls = m.calls.map(call);
  return JSON.stringify({
    headers: { e2eId: m.id, eventType: "StopMonitoringMessage", organisation: "AlmavivA", recordedAtTime: wall(0), source: "Pis" },
    payload: { monitoredStopVisits: m.kind === "odd" ? [] : [{ itemIdentifier: "i", monitoringRef: "PSL", monitoredVehicleJourney: { dataSource: "RAMI", monitored: true, monitoredCall: calls[0] ?? call(none, 0), onwardCalls: calls.slice(1), vehicleJourneyName: `${m.date.replaceAll("-", "")}1${String(m.train).padStart(5, "0")}${m.bus ? "BUS" : ""}` } }] },
  });
};
let uid = 0;
const batch = (bodies: string[]): any => ({ Records: bodies.map((b) => ({ messageId: `m${uid++}`, body: b })) });
const failures = (ev: any, r: any): boolean[] => { const bad = new Set(r.batchItemFailures.map((x: any) => x.itemIdentifier)); return ev.Records.map((x: any) => bad.has(x.messageId)); };
const shows = (): any => {
  const all = (s: string): any[] => mysql.db.prepare(s).all() as any[];
  const row = new Map(TABLE.map((r) => [r[0], r]));
  // a word stands by its train and date
  const own = (r: any): any => { const t = row.get(r.attap_id); return t && t[1] === r.train_number && t[2] === r.train_departure_date ? r.attap_id : `${r.train_number}/${r.train_departure_date}/${r.attap_id}`; };
  const word = (r: any): any => ({ att: own(r), ud: r.unknown_delay === 1, ut: r.unknown_track === 1 });
  const stories = new Map<any, any[]>();
  for (const r of all("SELECT * FROM rami_udot_history ORDER BY n")) {
    const w = word(r), s = stories.get(w.att) ?? [];
    stories.set(w.att, s);
    const p = s.at(-1);
    if (!p || p.ud !== w.ud || p.ut !== w.ut) s.push(w);
  }
  return {
    unknown: all("SELECT * FROM rami_udot").map(word),
    history: [...stories].map(([att, story]) => ({ att, story })),
    told: all("SELECT * FROM rami_stop_monitoring_message").map((r) => { const m = JSON.parse(r.message); return { id: m.headers.e2eId === r.rami_message_id ? r.rami_message_id : "another message", train: r.train_number, date: r.train_departure_date }; }),
  };
};
const UPSERT = /INSERT INTO rami_udot\s*\(|UPDATE rami_udot\b/i;
const FAULT: Record<string, () => any> = {
  connect: () => ({ where: "connect", times: 1 }), begin: () => ({ where: "begin", times: 1 }), commit: () => ({ where: "commit", times: 1 }), rows: () => ({ where: /FROM time_table_row/i, times: 1 }),
  once: () => ({ where: UPSERT, times: 1 }), twice: () => ({ where: UPSERT, times: 2 }), thrice: () => ({ where: UPSERT, times: 3 }), history: () => ({ where: /INTO rami_udot_history/i, times: 1 }), letters: () => ({ where: /DELETE FROM rami_stop_monitoring_message/i, times: 1 }),
};
const key = (x: any): string => JSON.stringify(canon(x));
const sortBy = (xs: any[]): any[] => { const seen = new Map(xs.map((x) => [key(x), x])); return [...seen.keys()].sort().map((k) => seen.get(k)); };
const timetable = (gone: number[]): void => {
  mysql.db.exec("DELETE FROM time_table_row");
  for (const t of TABLE) if (!gone.includes(t[0])) mysql.db.prepare("INSERT INTO time_table_row VALUES (?, ?, ?, ?, ?, ?)").run(t[0], t[1], t[2], t[3], sqlTime(t[4] * 60), t[5]);
};
function adapter(): Adapter {
  const whole = (x: any): any => (mysql.held ? { ...x, held: mysql.held } : x);
  return {
    match(e, o: any) {
      const norm = (x: any): any => ({ ...x, ...(x.on ? { on: [...x.on].sort((a: any, b: any) => (a.id < b.id ? -1 : 1)) } : {}), ...(x.kept ? { kept: { unknown: sortBy(x.kept.unknown), history: sortBy(x.kept.history), told: sortBy(x.kept.told) } } : {}) });
      return key(norm(e)) === key(norm(o));
    },
    async reset([now, unknown, history, told, , gone]) {
      clock.now = BASE + now * 60000;
      mysql.fault = undefined; mysql.held = 0; queue.sent = []; queue.fail = false;
      open(DDL);
      const put = (sql: string, ...v: any[]): void => { mysql.db.prepare(sql).run(...v); };
      timetable(gone);
      const of = (att: number): any[] => { const t = TABLE.find((x) => x[0] === att)!; return [t[1], t[2], att]; };
      for (const u of unknown) put("INSERT INTO rami_udot (train_number, train_departure_date, attap_id, unknown_delay, unknown_track, created_db) VALUES (?, ?, ?, ?, ?, ?)", ...of(u.att), Number(u.ud), Number(u.ut), sqlTime(u.since * 60));
      for (const u of history) put("INSERT INTO rami_udot_history (rami_message_id, train_number, train_departure_date, attap_id, unknown_delay, unknown_track, created_db) VALUES ('before', ?, ?, ?, ?, ?, ?)", ...of(u.att), Number(u.ud), Number(u.ut), sqlTime(u.since * 60));
      for (const u of told) put("INSERT INTO rami_stop_monitoring_message (rami_message_id, train_number, train_departure_date, message, created_db) VALUES (?, ?, ?, ?, ?)", u.id, u.train, u.date, JSON.stringify({ headers: { e2eId: u.id } }), sqlTime(u.since * 60));
    },
    async step(a) {
      if (a.op === "wait") { clock.now += a.minutes * 60000; return whole({ kind: "waited" }); }
      if (a.op === "table") { timetable(a.gone); return whole({ kind: "turned" }); }
      if (a.op === "clean") {
        mysql.fault = FAULT[a.fault]?.();
        let failed = false;
        try { await (clean as any)(); } catch { failed = true; }
        mysql.fault = undefined;
        return whole({ kind: "cleaned", failed, kept: shows() });
      }
      queue.sent = [];
      const ev = batch(a.batch.map(body)), heard = failures(ev, await (hear as any)(ev, {} as any, () => {}));
      const letters = queue.sent.filter((s) => s.QueueUrl === "dlq"), on = queue.sent.filter((s) => s.QueueUrl === "udot"), odd = a.batch.filter((m: any) => m.kind === "odd");
      // what cannot be read at all is not judged; of what can, nothing fails
      const wrong = heard.some((f, i) => f && a.batch[i].kind !== "junk") || letters.length + on.length !== queue.sent.length || letters.some((l) => { const x = JSON.parse(l.MessageBody); return x.messageType !== "SM" || x.message !== body(odd[0]); });
      const ids = on.map((s) => JSON.parse(s.MessageBody));
      // a queue may give what it has in any order, and does so here as the messages came
      const inOrder = a.batch.filter((m: any) => m.kind === "sm").map((m: any) => on[ids.findIndex((x) => x.messageId === m.id)]).filter(Boolean);
      const next = batch(inOrder.map((s: any) => s.MessageBody));
      mysql.fault = FAULT[a.fault]?.();
      const failed = next.Records.length ? failures(next, await (follow as any)(next, {} as any, () => {})) : [];
      mysql.fault = undefined;
      return whole({
        kind: wrong ? "went wrong" : "came", letters: letters.length, failed,
        on: ids.map((x) => ({ id: x.messageId, train: x.trainNumber, date: x.departureDate, data: x.data.map((d: any) => ({ at: d.stationShortCode, sec: (Date.parse(d.scheduledTime) - BASE) / 1000, type: d.type, ud: d.unknownDelay, ut: d.unknownTrack })) })),
        kept: shows(),
      });
    },
  };
}
main({ said: { adapter }, batches: { adapter }, words: { adapter }, timetables: { adapter }, faults: { adapter }, ages: { adapter } });
