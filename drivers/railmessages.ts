import "./env-rail.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { clock, fakeDate } from "./sqlpg.js";
import { mysql, open } from "./stubs/mysql2.js";
import { queue } from "./stubs/sqs.js";
import { s3State, sent } from "./stubs/s3.js";
import { handler as process_ } from "@repo/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.js";
import { handler as active } from "@repo/rail/rami/src/lambda/get-active-messages/get-active-messages.js";
import { handler as after } from "@repo/rail/rami/src/lambda/get-messages-updated-after/get-messages-updated-after.js";
import { handler as upload } from "@repo/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.js";
import { handler as bury } from "@repo/rail/rami/src/lambda/process-dlq/process-dlq.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
const KEY = "rami_message_id TEXT NOT NULL, rami_message_version INTEGER NOT NULL";
const PART = `${KEY}, text_fi TEXT, text_sv TEXT, text_en TEXT, delivery_type TEXT, start_date_time TEXT, end_date_time TEXT, start_time TEXT, end_time TEXT, days_of_week INTEGER`;
const DDL = [
  "CREATE TABLE rami_message (id TEXT NOT NULL, version INTEGER NOT NULL, message_type TEXT NOT NULL, created_source TEXT NOT NULL, start_validity TEXT NOT NULL, end_validity TEXT NOT NULL, train_number INTEGER, train_departure_date TEXT, journey_ref TEXT, deleted TEXT, created_db TEXT, PRIMARY KEY (id, version))",
  `CREATE TABLE rami_message_station (${KEY}, station_short_code TEXT NOT NULL)`,
  `CREATE TABLE rami_message_video (${PART})`,
  `CREATE TABLE rami_message_audio (${PART}, event_type TEXT, delivery_at TEXT, repetitions INTEGER, repeat_every INTEGER)`,
];
const iso = (m: number): string => new Date(BASE + m * 60000).toISOString();
const isoOr = (m: number): string | null => (m === -1 ? null : iso(m));
const strOr = (s: string): string | null => (s === "-" ? null : s);
const numOr = (n: number): number | null => (n === -1 ? null : n);
const says = (texts: any[], key: string): any[] => texts.map((t) => ({ language: t.lang, [key]: t.raw }));
/** the message as the operator's system sends it */
const wire = (m: any): any => {
  const r = m.audio.rules, v = m.video.rules;
  const bare = (x: any): boolean => x.type === "-" && x.times === -1 && x.every === -1 && x.event === "-";
  const points = m.points.map((id: string) => ({ id, nameLong: `${id} station` }));
  return {
    headers: { e2eId: "e2e", organisation: "MOOVA", source: "x", eventType: "OperatorScheduledMessage", partitionKey: m.id, recordedAtTime: iso(m.created) },
    payload: {
      messageId: m.id, messageVersion: m.ver, title: "title", messageType: m.type === "train" ? "MONITORED_JOURNEY_SCHEDULED_MESSAGE" : "SCHEDULED_MESSAGE", operation: m.op,
      creationDateTime: iso(m.created), startValidity: iso(m.from), endValidity: iso(m.to),
      scheduledMessage: m.type === "train" ? null : {
        situations: null, deliveryChannels: ["ONGROUND"],
        onGroundRecipient: {
          messageContentType: "AUDIO_VIDEO", deliveryPoints: points,
          recipientAudioMessagesToDeliver: !m.audio.on ? null : {
            ...(m.audio.texts.length ? { audioContentType: "AUDIO_TEXT", audioText: says(m.audio.texts, "text") } : { audioContentType: "AUDIO_FILE", audioText: null, media: "file" }),
            scheduledAudioDeliveryRules: r.type === "-" ? null : { audioSchedulationType: r.type, startDateTime: isoOr(r.from), endDateTime: isoOr(r.to), startTime: strOr(r.start), endTime: strOr(r.end), repetitions: numOr(r.times), repeatEvery: numOr(r.every), daysOfWeek: r.days.length ? r.days : null, deliveryAtDateTime: isoOr(r.at) },
          },
          recipientVideoMessagesToDeliver: !m.video.on ? null : { videoTexts: says(m.video.texts, "text"), deliveryRules: v.type === "-" ? null : { videoSchedulationType: v.type, startDateTime: isoOr(v.from), endDateTime: isoOr(v.to), startTime: strOr(v.start), endTime: strOr(v.end), daysOfWeek: v.days.length ? v.days : null } },
        },
      },
      monitoredJourneyScheduledMessage: m.type !== "train" ? null : {
        vehicleJourney: { datedVehicleJourneyRef: "ref", dataFrameRef: m.date, vehicleJourneyName: String(m.train) },
        messageContentType: "AUDIO_VIDEO", deliveryPoints: points,
        audioMessageContents: !m.audio.on ? null : { audioTexts: says(m.audio.texts, "audioText"), deliveryRules: bare(r) ? null : { repetitions: numOr(r.times), repeatEvery: numOr(r.every), eventType: strOr(r.event) ?? "" }, deliveryType: strOr(r.type) },
        videoTexts: !m.video.on ? null : says(m.video.texts, "videoText"),
      },
    },
  };
};
const mins = (t: any): any => { if (t === undefined) return -1; const x = (Date.parse(t) - BASE) / 60000; return Number.isNaN(x) || !/Z$/.test(t) ? `not a time: ${t}` : x; };
const or = (x: any, d: any): any => (x === undefined ? d : x);
const part = (p: any, sound: boolean): any => {
  if (p === undefined) return { on: false };
  const r = p.deliveryRules ?? {};
  return { on: true, text: { fi: or(p.text.fi, "-"), sv: or(p.text.sv, "-"), en: or(p.text.en, "-") },
    rules: { type: or(r.deliveryType, "-"), from: mins(r.startDateTime), to: mins(r.endDateTime), start: or(r.startTime, "-"), end: or(r.endTime, "-"), days: or(r.weekDays, []), at: mins(r.deliveryAt), times: or(r.repetitions, -1), every: or(r.repeatEvery, -1), event: or(r.eventType, "-") } };
};
const publicOf = (x: any): any => ({
  id: x.id, version: x.version, created: mins(x.creationDateTime), from: mins(x.startValidity), to: mins(x.endValidity), train: or(x.trainNumber, -1), date: or(x.trainDepartureDate, "-"),
  stations: x.stations === undefined ? [] : [...x.stations].sort(), audio: part(x.audio, true), video: part(x.video, false),
});
const byId = (ms: any[]): any[] => ms.map((m) => ({ ...m, stations: [...m.stations].sort() })).sort((a, b) => (a.id < b.id ? -1 : 1));
const told = (r: any): any => { const b = Buffer.from(r.body, "base64").toString(); return r.status === 200 ? { kind: "told", status: 200, messages: byId(JSON.parse(b).map(publicOf)) } : { kind: "told", status: r.status }; };
const WHERE: Record<string, string | RegExp> = { connect: "connect", begin: "begin", commit: "commit", main: /INSERT INTO rami_message\b/i, stations: /INSERT INTO rami_message_station/i, audio: /INSERT INTO rami_message_audio/i, video: /INSERT INTO rami_message_video/i, delete: /UPDATE rami_message\b|DELETE FROM rami_message\b/i, query: /SELECT/i };
let uid = 0;
const batch = (ms: any[]): any => ({ Records: ms.map((m) => ({ messageId: `m${uid++}`, body: m.op === "junk" ? "{\"headers\":" : JSON.stringify(wire(m)) })) });
const events = (q: any): any => ({ train_number: q.train, train_departure_date: q.date, station: q.station, only_general: q.general });

function adapter(): Adapter {
  const shown = async (): Promise<any[]> => (told(await active(events({ train: "", date: "", station: "", general: "" })))).messages;
  const whole = (x: any): any => (mysql.held ? { ...x, held: mysql.held } : x);
  return {
    match(e, o: any) { const srt = (x: any) => ({ ...x, ...(x.active ? { active: byId(x.active) } : {}), ...(x.messages ? { messages: byId(x.messages) } : {}), ...(x.files ? { files: x.files.map((f: any) => JSON.stringify(canon(f))).sort() } : {}) }); return JSON.stringify(canon(srt(e))) === JSON.stringify(canon(srt(o))); },
    async reset([now, kept]) {
      clock.now = BASE + now * 60000;
      mysql.fault = undefined; mysql.held = 0; queue.sent = []; queue.fail = false; s3State.handler = undefined;
      open(DDL);
      // as they were sent; what was taken back is taken back at the end
      for (const k of kept) await process_(batch([{ ...k.m, op: "INSERT" }]), {} as any, () => {});
      for (const k of kept) if (k.gone) await process_(batch([{ ...k.m, op: "DELETE" }]), {} as any, () => {});
      queue.sent = [];
    },
    async step(a) {
      mysql.fault = a.fault && a.fault !== "-" ? { where: WHERE[a.fault]!, times: 1 } : undefined;
      if (a.op === "wait") { clock.now += a.minutes * 60000; return whole({ kind: "waited", active: await shown() }); }
      if (a.op === "process") {
        const ev = batch(a.batch), before = queue.sent.length;
        const r: any = await process_(ev, {} as any, () => {});
        mysql.fault = undefined;
        const bad = new Set(r.batchItemFailures.map((x: any) => x.itemIdentifier));
        const letters = queue.sent.slice(before).map((s) => { const l = JSON.parse(s.MessageBody); return s.QueueUrl !== "dlq" || l.messageType !== "ROSM" ? "elsewhere" : JSON.parse(l.message).payload.messageId; });
        return whole({ kind: "processed", failed: ev.Records.map((x: any) => bad.has(x.messageId)), letters, active: await shown() });
      }
      if (a.op === "ask" || a.op === "since") {
        try { return whole(told(await (a.op === "ask" ? active(events(a.q)) : after({ ...events(a.q), date: a.date, only_active: a.active })))); }
        catch { return whole({ kind: "error" }); }
      }
      if (a.op === "upload") {
        queue.sent = []; queue.fail = a.u.down;
        const m = wire({ id: "a", ver: 1, op: "INSERT", type: "train", created: -60, from: -30, to: 30, train: 1, date: "2026-02-03", points: ["HKI"], audio: { on: false, rules: {} }, video: { on: false, rules: {} } });
        if (a.u.body === "invalid") delete m.payload.messageId;
        const text = JSON.stringify(m);
        try {
          const r: any = await upload(a.u.body === "empty" ? undefined : m);
          const same = (s: any): boolean => s.QueueUrl === "rosm" ? JSON.stringify(JSON.parse(s.MessageBody)) === text : JSON.stringify(JSON.parse(s.MessageBody).message) === text && /messageId/.test(JSON.parse(s.MessageBody).errors);
          const n = (url: string): any => { const x = queue.sent.filter((s) => s.QueueUrl === url); return x.every(same) ? x.length : "altered"; };
          return { kind: "handed", status: r.status, queue: n("rosm"), letters: n("dlq") };
        } catch { return { kind: "error" }; } finally { queue.fail = false; }
      }
      sent.length = 0;
      let fails = a.l.fails;
      s3State.handler = () => (fails-- > 0 ? Promise.reject(new Error("s3 down")) : Promise.resolve({}));
      const done: any[] = [];
      const inner = s3State.handler;
      s3State.handler = async (c: any) => { const r = await inner(c); done.push(c.input); return r; };
      await bury({ Records: a.l.letters.map((l: any) => ({ body: JSON.stringify({ messageType: l.type, errors: l.errors, message: l.message.startsWith("{") ? JSON.parse(l.message) : l.message }) })) });
      const names = new Set(done.map((x) => x.Key));
      return { kind: "buried", tries: sent.length, files: names.size !== done.length || done.some((x) => x.Bucket !== "letters") ? "names clash" : done.map((x) => { let b: any; try { b = JSON.parse(x.Body); } catch { return { folder: x.Key, errors: "unreadable", message: x.Body }; } return { folder: x.Key.replace(/\/[^/]*$/, ""), errors: b[0].errors, message: typeof b[1] === "string" ? b[1] : JSON.stringify(b[1]) }; }) };
    },
  };
}
main({ intake: { adapter }, versions: { adapter }, faults: { adapter }, batches: { adapter }, parts: { adapter }, asked: { adapter }, since: { adapter } });
