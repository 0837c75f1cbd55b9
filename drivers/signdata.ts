import "./env-fn.js";
import { captureStdout, canon, main, type Adapter } from "./rt.js";
import { SqlPg, basics, clock, fakeDate } from "./sqlpg.js";
import { secrets } from "./stubs/apps.js";
import { queue } from "./stubs/sqs.js";
import { parseXml, XmlElement, XmlText } from "./stubs/xml.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
const BASE = Date.UTC(2026, 1, 3, 12, 0, 0);
clock.now = BASE;
fakeDate();
process.env.SECRET_ID = "the-secret"; process.env.QUEUE_URL = "https://queue.example.com/1"; 
process.env.DB_USER = "user"; process.env.DB_PASS = "pass"; process.env.DB_URI = "x"; process.env.DB_RO_URI = "x"; process.env.DB_APPLICATION = "app";
const MOD = (t: string, on: string): string => `CREATE TRIGGER ${t}_${on} AFTER ${on} ON ${t} BEGIN UPDATE ${t} SET modified = __now() WHERE rowid = NEW.rowid; END`;
const pg = new SqlPg({
  schemas: ["road"],
  types: { modified: "timestamptz" },
  functions: { ...basics, to_timestamp: (x: any) => Number(x) * 1000 },
  ddl: [
    "CREATE TABLE device (id TEXT PRIMARY KEY, modified TIMESTAMPTZ, deleted_date TIMESTAMPTZ, type TEXT NOT NULL, road_address TEXT, direction TEXT, carriageway TEXT, etrs_tm35fin_x NUMERIC, etrs_tm35fin_y NUMERIC)",
    "CREATE TABLE device_data (id INTEGER PRIMARY KEY, device_id TEXT NOT NULL, display_value TEXT, additional_information TEXT, effect_date TIMESTAMPTZ NOT NULL CHECK(typeof(effect_date) = 'integer'), cause TEXT, reliability TEXT)",
    "CREATE TABLE device_data_row (id INTEGER PRIMARY KEY, device_data_id INTEGER NOT NULL, screen INTEGER NOT NULL, row_number INTEGER NOT NULL, text TEXT)",
    "CREATE TABLE device_data_datex2 (device_id TEXT NOT NULL, datex2 TEXT NOT NULL, effect_date TIMESTAMPTZ NOT NULL CHECK(typeof(effect_date) = 'integer'), type TEXT NOT NULL, version TEXT NOT NULL, modified TIMESTAMPTZ, UNIQUE(device_id, type, version))",
    MOD("device_data_datex2", "INSERT"), MOD("device_data_datex2", "UPDATE"), MOD("device", "INSERT"), MOD("device", "UPDATE"),
    "CREATE TABLE data_incoming (data_id INTEGER PRIMARY KEY, message_id TEXT NOT NULL, source TEXT NOT NULL, version TEXT NOT NULL, type TEXT NOT NULL, data TEXT NOT NULL, status TEXT NOT NULL, created_at TIMESTAMPTZ)",
    "CREATE TRIGGER incoming AFTER INSERT ON data_incoming BEGIN UPDATE data_incoming SET created_at = __now() WHERE rowid = NEW.rowid; END",
    "CREATE TABLE data_updated (id INTEGER, data_type TEXT NOT NULL, subtype TEXT NOT NULL DEFAULT '-', updated TIMESTAMPTZ, UNIQUE(data_type, subtype))",
  ],
});
const VERSION: Record<string, string> = { 2: "DATEXII_2_2_3", 5: "DATEXII_3_5", 7: "DATEXII_3_7" };
// ---------- what the sources write
const TRIED = "VME/TIO015111";
const START: Record<string, string> = { first: "2024-05-20T19:00:00.000Z", before: "2024-05-20T18:59:59.999Z", last: "2024-05-21T01:59:59.999Z", end: "2024-05-21T02:00:00.000Z", first2: "2024-05-21T19:00:00Z", before2: "2024-05-21T21:59:59.999+03:00", last2: "2024-05-22T04:59:59+03:00", end2: "2024-05-22T02:00:00.000Z", record: "2024-05-20T23:00:00.000Z", foreign: "2024-05-20T23:00:00.000Z", bad: "soon" };
const start = (v: string): string => START[v] ?? "2025-01-15T08:30:00.000Z";
const note = (v: string): string => (v === "dollar" ? "costs $& $1 $$ $` $' 5 € SITUATIONS STATUSES CONTROLLERS PUBLICATION_TIME" : v === "marks" ? "&lt;situation &amp; &quot;more&quot;" : v);
const record = (id: string, v: string): string => (v === "record" ? TRIED : v === "foreign" ? "VME/TIO01K503" : id);
const item = (ver: string, kind: string, id: string, v: string, p: boolean): string => {
  if (ver === "2") return `<situation id="${id}" version="1618301599607">
         <overallSeverity>high</overallSeverity>
         <situationRecord xsi:type="SpeedManagement" id="${record(id, v)}" version="16">
            <generalPublicComment>${note(v)}</generalPublicComment>
            <validity>
                <validityStatus>active</validityStatus>
                <validityTimeSpecification>
                   <overallStartTime>${start(v)}</overallStartTime>
               </validityTimeSpecification>
           </validity>
         </situationRecord>
      </situation>`;
  const r = (ns: string): string => (p ? `${ns}:` : "");
  if (kind === "SITUATION") return `<${r("sit")}situation id="${id}">
		<sit:overallSeverity>high</sit:overallSeverity>
		<sit:situationRecord xsi:type="sit:SpeedManagement" id="${record(id, v)}" version="123" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
			<com:severity>${note(v)}</com:severity>
			<sit:validity>
				<com:validityStatus>active</com:validityStatus>
				<com:validityTimeSpecification>
					<com:overallStartTime>${start(v)}</com:overallStartTime>
				</com:validityTimeSpecification>
			</sit:validity>
			<sit:situationOf>x</sit:situationOf>
		</sit:situationRecord>
	</${r("sit")}situation>`;
  if (kind === "CONTROLLER_STATUS") return `<${r("vms")}vmsControllerStatus>
		<vms:vmsControllerReference id="${id}" version="0" targetClass="vms:VmsController"/>
		<vms:statusUpdateTime>${start(v)}</vms:statusUpdateTime>
		<vms:vmsStatus vmsIndex="1"><vms:text>${note(v)}</vms:text></vms:vmsStatus>
		<vms:vmsStatus vmsIndex="2"><vms:text>second</vms:text></vms:vmsStatus>
	</${r("vms")}vmsControllerStatus>`;
  return `<${r("vms")}vmsController id="${id}" version="0">
		<vms:numberOfVms>1</vms:numberOfVms>
		<vms:description lang="fi">${note(v)}</vms:description>
	</${r("vms")}vmsController>`;
};
const XML = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`;
const NS = `xmlns:com="http://datex2.eu/schema/3/common" xmlns:vms="http://datex2.eu/schema/3/vms" xmlns:d2="http://datex2.eu/schema/3/d2Payload" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:sit="http://datex2.eu/schema/3/situation"`;
const message = (ver: string, kind: string, items: any[], whole = true): string => {
  const list = items.map((i) => item(ver, kind, i.dev, i.v, true)).join("\n      ");
  let m: string;
  if (ver === "2") m = `${XML}<d2LogicalModel modelBaseVersion="2" xmlns="http://datex2.eu/schema/2/2_0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
   <payloadPublication xsi:type="SituationPublication" lang="fi">
      <publicationTime>2021-04-13T05:13:39.182Z</publicationTime>
      ${list}
   </payloadPublication></d2LogicalModel>`;
  else if (kind === "SITUATION") m = `${XML}\n<sit:situationPublication lang="fi" modelBaseVersion="3" ${NS}>\n<com:publicationTime>2025-10-17T08:15:52.992Z</com:publicationTime>\n${list}\n</sit:situationPublication>`;
  else if (kind === "CONTROLLER_STATUS") m = `${XML}\n<d2:payload xsi:type="vms:VmsPublication" ${NS}>\n<com:publicationTime>2025-10-17T08:15:52.992Z</com:publicationTime>\n${list}\n</d2:payload>`;
  else m = `${XML}\n<d2:payload xsi:type="vms:VmsTablePublication" ${NS}>\n<com:publicationTime>2025-10-17T08:15:52.992Z</com:publicationTime>\n<vms:vmsControllerTable>\n${list}\n</vms:vmsControllerTable>\n</d2:payload>`;
  // cut off before the end of the last of them
  return whole ? m : m.slice(0, m.lastIndexOf(ver === "2" ? "</situation>" : kind === "SITUATION" ? "</sit:situation>" : kind === "CONTROLLER" ? "</vms:vmsController>" : "</vms:vmsControllerStatus>"));
};
// ---------- what is published
const tree = (e: XmlElement): any => [e.name, Object.fromEntries(Object.entries(e.attributes).sort()), ...(e.children.some((c) => c instanceof XmlElement) ? e.children.filter((c) => c instanceof XmlElement).map((c) => tree(c as XmlElement)) : [e.children.map((c) => (c as XmlText).text).join("")])];
const known = new Map<string, string>();
const VARIANTS = ["plain", "other", "dollar", "marks", "bare", ...Object.keys(START)];
const IDS = ["KRM000001", "VME/TIO01K502", "VMS000009"];
const key = (ver: string, x: XmlElement): string => ver + JSON.stringify(canon(tree(x)));
for (const ver of ["2", "5", "7"]) for (const kind of ["SITUATION", "CONTROLLER", "CONTROLLER_STATUS"]) for (const id of IDS) for (const v of VARIANTS) if (ver !== "2" || kind === "SITUATION") { const k = key(ver, parseXml(item(ver, kind, id, v, true)).root); if (!known.has(k)) known.set(k, v); }
const PREFIXES = (e: XmlElement, seen: Set<string>): string | undefined => {
  const ns = new Set([...seen, ...Object.keys(e.attributes).filter((a) => a.startsWith("xmlns:")).map((a) => a.slice(6))]);
  const used = [e.name, ...Object.keys(e.attributes).filter((a) => !a.startsWith("xmlns")), e.attributes["xsi:type"] ?? ""].filter((n) => n.includes(":")).map((n) => n.split(":")[0]!);
  const no = used.find((p) => p !== "xml" && !ns.has(p));
  if (no) return no;
  for (const c of e.children) if (c instanceof XmlElement) { const r = PREFIXES(c, ns); if (r) return r; }
  return undefined;
};
const minutes = (t: number): number => (t - BASE) / 60000;
const kids = (e: XmlElement, n: string): XmlElement[] => e.children.filter((c): c is XmlElement => c instanceof XmlElement && c.name === n);
const read = (r: any, ver: string, kind: string): any => {
  if (r.status !== 200) return { ver, kind, status: r.status };
  const body = Buffer.from(r.body, "base64").toString("utf8");
  const { root } = parseXml(body);
  const prefix = PREFIXES(root, new Set());
  if (prefix) return { ver, kind, undeclared: prefix };
  const plain = ver === "2";
  const head = plain ? kids(root, "payloadPublication")[0]! : root;
  const name = plain ? "d2LogicalModel" : kind === "SITUATION" ? "sit:situationPublication" : "d2:payload";
  const type = plain ? "SituationPublication" : kind === "SITUATION" ? undefined : kind === "CONTROLLER" ? "vms:VmsTablePublication" : "vms:VmsPublication";
  if (root.name !== name || head.attributes["xsi:type"] !== type) return { ver, kind, is: root.name, of: head.attributes["xsi:type"] };
  const tag = plain ? "situation" : kind === "SITUATION" ? "sit:situation" : kind === "CONTROLLER" ? "vms:vmsController" : "vms:vmsControllerStatus";
  const holder = kind === "CONTROLLER" ? kids(head, "vms:vmsControllerTable")[0]! : head;
  const allowed = new Set(["com:publicationTime", "com:publicationCreator", "vms:headerInformation", "publicationTime", "publicationCreator", "vms:vmsControllerTable", tag]);
  const strange = [...head.children, ...holder.children].find((c) => (c instanceof XmlElement ? !allowed.has(c.name) : c.text.trim() !== ""));
  if (strange) return { ver, kind, strange: strange instanceof XmlElement ? strange.name : strange.text };
  const items = kids(holder, tag).map((x) => {
    const id = kind === "CONTROLLER_STATUS" ? kids(x, "vms:vmsControllerReference")[0]?.attributes.id : x.attributes.id;
    let v = known.get(key(ver, x)) ?? "changed";
    // the oldest version is passed on letter by letter
    if (plain && v !== "changed" && !body.includes(item(ver, kind, id!, v, true))) v = "rewritten";
    return { id: id ?? "?", v };
  });
  const said = kids(head, plain ? "publicationTime" : "com:publicationTime")[0]?.text;
  const a = said === undefined ? "?" : Date.parse(said), b = r.timestamp === undefined ? "none" : Date.parse(new Date(r.timestamp).toISOString());
  return { ver, kind, time: a !== b ? `${said} in the text and ${r.timestamp} with it` : a === 0 ? -1 : minutes(a as number), items };
};
let mods: any;
async function load(): Promise<any> {
  await pg.ready();
  secrets.value = { username: "user", password: "pass", proxy_host: process.env.DB_URI!, proxy_ro_host: process.env.DB_RO_URI! };
  mods ??= {
    metadata: await import("@repo/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.js"),
    state: await import("@repo/road/variable-signs/src/lambda/update-json-data/update-json-data.js"),
    legacy: await import("@repo/road/variable-signs/src/lambda/update-datex2/update-datex2.js"),
    upload: await import("@repo/road/data-upload/src/lambda/upload-datex2/upload-datex2.js"),
    handle: await import("@repo/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.js"),
    delete: await import("@repo/road/data-upload/src/lambda/delete-old-messages/delete-old-messages.js"),
    "2SITUATION": await import("@repo/road/variable-signs/src/lambda/get-datex2/get-datex2.js"),
    "5SITUATION": await import("@repo/road/variable-signs/src/lambda/get-situations-datex2-35/get-situations-datex2-35.js"),
    "7SITUATION": await import("@repo/road/variable-signs/src/lambda/get-situations-datex2-37/get-situations-datex2-37.js"),
    "5CONTROLLER": await import("@repo/road/variable-signs/src/lambda/get-controllers-datex2-35/get-controllers-datex2-35.js"),
    "7CONTROLLER": await import("@repo/road/variable-signs/src/lambda/get-controllers-datex2-37/get-controllers-datex2-37.js"),
    "5CONTROLLER_STATUS": await import("@repo/road/variable-signs/src/lambda/get-statuses-datex2-35/get-statuses-datex2-35.js"),
    "7CONTROLLER_STATUS": await import("@repo/road/variable-signs/src/lambda/get-statuses-datex2-37/get-statuses-datex2-37.js"),
  };
  return mods;
}
// ---------- the list of signs
const num = (id: string): number => IDS.indexOf(id) + 1;
const device = (id: string, v: number): any => ({ tunnus: id, tyyppi: `TYPE${v}`, sijainti: { tieosoite: `${v}/${num(id)}`, ajosuunta: v === 1 ? "INCREASING" : "DECREASING", ajorata: v === 1 ? "RIGHT" : "LEFT", n: 6700000 + v, e: 300000 + num(id) * 10 + v } });
const deviceRow = (id: string, v: number): any => { const d = device(id, v); return { id, type: d.tyyppi, road_address: d.sijainti.tieosoite, direction: d.sijainti.ajosuunta, carriageway: d.sijainti.ajorata, etrs_tm35fin_x: d.sijainti.e, etrs_tm35fin_y: d.sijainti.n }; };
const readDevice = (r: any): any => ({ id: r.id, state: r.deleted_date === null ? "live" : "gone", v: [1, 2].find((v) => JSON.stringify(canon(deviceRow(r.id, v))) === JSON.stringify(canon(Object.fromEntries(Object.keys(deviceRow(r.id, v)).map((k) => [k, r[k]]))))) ?? "changed" });
// ---------- the states of signs: 1 has everything, 2 lacks what may lack, 3 has texts of every sort
const stateOf = (x: any): any => ({
  tunnus: x.dev, voimaan: new Date(BASE + x.v * 1000).toISOString(), luotettavuus: "NORMAALI",
  ...(x.v === 2 ? {} : { nayttama: x.v === 3 ? "80 $& 'quoted'" : "80", lisatieto: `more ${x.v}`, syy: "LIUKAS" }),
  ...(x.v === 2 && x.lines === 0 ? {} : { rivit: Array.from({ length: x.lines }, (_, i) => ({ naytto: 1 + (i % 2), rivi: 1 + i, ...(i === 1 ? {} : { teksti: `text ${x.v}.${i} it's` }) })) }),
});
const states = (): any[] => {
  const lines = pg.all("SELECT device_data_id AS d, screen, row_number, text FROM device_data_row ORDER BY id");
  const left = new Set(lines);
  const out = pg.all("SELECT * FROM device_data ORDER BY id").map((r) => {
    const own = lines.filter((l) => Number(l.d) === Number(r.id)); for (const l of own) left.delete(l);
    for (const v of [1, 2, 3]) {
      const s = stateOf({ dev: r.device_id, v, lines: own.length });
      const want = [s.nayttama ?? null, s.lisatieto ?? null, Date.parse(s.voimaan), s.syy ?? null, s.luotettavuus, (s.rivit ?? []).map((l: any) => [l.naytto, l.rivi, l.teksti ?? null])];
      const got = [r.display_value, r.additional_information, r.effect_date, r.cause, r.reliability, own.map((l) => [l.screen, l.row_number, l.text])];
      if (JSON.stringify(want) === JSON.stringify(got)) return { dev: r.device_id, v, lines: own.length };
    }
    return { dev: r.device_id, v: "changed", lines: own.length };
  });
  return left.size ? [...out, "rows of nothing"] : out;
};
/** an operation in which the n-th thing that is written fails; one that does not write so much is undone by hand */
async function faulty(n: number, go: () => Promise<any>): Promise<any> {
  if (n === 0) return go();
  pg.db.exec("SAVEPOINT faulty");
  let i = 0, fired = false;
  pg.fault = (sql) => { if (!/^\s*(insert|update|delete)/i.test(sql)) return undefined; i++; if (i === n) { fired = true; return "lost the disk"; } return undefined; };
  let r: any;
  let failed: unknown;
  try { r = await go(); } catch (e) { failed = e; } finally { pg.fault = undefined; }
  if (fired || failed) { pg.db.exec("RELEASE faulty"); if (failed) throw failed; return r; }
  pg.db.exec("ROLLBACK TO faulty; RELEASE faulty");
  return { statusCode: 500 };
}
const said = async (go: () => Promise<any>): Promise<any> => { try { const r = await go(); return r?.statusCode === 200 ? "ok" : r?.statusCode === 400 ? "refused" : r?.statusCode === 500 ? "failed" : r === undefined ? "done" : JSON.stringify(r); } catch { return "failed"; } };
const of = (): (() => Adapter) => () => {
  let saidAt = -1, told = 0, ids = 0, wanted = new Map<string, string>();
  return {
    lazy: true,
    async reset(init) {
      await load();
      pg.reset();
      queue.sent = []; queue.fail = false; saidAt = -1; told = 0; wanted = new Map();
      clock.now = BASE;
      const [, devices, texts] = init;
      for (const [id, d] of Object.entries<any>(devices)) if (d.state !== "none") { pg.insert("device", { ...deviceRow(id, d.v), deleted_date: d.state === "gone" ? BASE - 1 : null }); }
      const rows: any[] = Array.isArray(texts) ? texts : Object.entries<any>(texts);
      for (const [k, by] of rows) {
        const m = /"?(\d)"?\W+([A-Z_]+)/.exec(String(k))!;
        for (const [id, t] of Object.entries<any>(by)) if (t.v !== "-") pg.insert("device_data_datex2", { device_id: id, datex2: item(m[1]!, m[2]!, id, t.v, t.v !== "bare"), effect_date: BASE, type: m[2]!, version: VERSION[m[1]!]! });
      }
    },
    async step(a, again) {
      let out: any = "-";
      const m = a.m;
      if (a.op === "wait") { clock.now += m * 60000; }
      else {
        if (a.op === "metadata") out = await said(() => faulty(m.fault ? 2 : 0, () => mods.metadata.handler({ body: m.kind === "nothing" ? "" : m.kind === "malformed" ? '{"laitteet":[' : JSON.stringify({ laitteet: m.list.map((x: any) => device(x.dev, x.v)) }) })));
        else if (a.op === "state") out = await said(() => faulty(m.fault, () => mods.state.handler({ body: m.kind === "nothing" ? undefined : m.kind === "malformed" ? "<xml/>" : JSON.stringify({ liikennemerkit: m.list.map(stateOf) }) })));
        else if (a.op === "legacy") {
          const whole = message("2", "SITUATION", m.items, m.kind !== "cut");
          const body = m.kind === "nothing" ? "" : m.kind === "noxml" ? whole.replace(XML, "") : m.kind === "nopayload" ? whole.replaceAll("payloadPublication", "somePublication") : m.kind === "twopayloads" ? whole.replace("</d2LogicalModel>", '<payloadPublication xsi:type="SituationPublication"/></d2LogicalModel>') : whole;
          out = await said(() => faulty(m.fault, () => mods.legacy.handler({ body })));
        } else if (a.op === "upload") {
          const list = m.list.map((e: any) => ({ type: e.type, version: VERSION[e.ver], message: message(e.ver, e.kind, e.items, e.whole) }));
          const one = { type: "VARIABLE_MESSAGE_SIGN_DATEX_XML", version: "DATEXII_3_5", message: "<x/>" };
          const body = m.kind === "list" ? JSON.stringify({ datexIIVersions: list }) : m.kind === "nothing" ? null : m.kind === "text" ? "not { json" : JSON.stringify(m.kind === "empty" ? { datexIIVersions: [] } : m.kind === "array" ? [one] : m.kind === "extra" ? { datexIIVersions: [one], more: 1 } : m.kind === "missing" ? { datexIIVersions: [{ type: one.type, version: one.version }] } : m.kind === "number" ? { datexIIVersions: [{ ...one, message: 5 }] } : { datexIIVersions: [{ ...one, more: "x" }] });
          if (m.fault === "db") pg.fault = (sql) => (/data_incoming/i.test(sql) ? "lost the disk" : undefined);
          queue.fail = m.fault === "queue";
          const id = ++ids % 2 ? `request-${ids}` : undefined;
          const before = pg.all("SELECT max(data_id) AS n FROM data_incoming")[0].n ?? 0;
          out = await said(() => mods.upload.handler({ body, headers: id ? { "X-Request-ID": id } : {} }));
          pg.fault = undefined; queue.fail = false;
          if (id) for (const r of pg.all("SELECT message_id FROM data_incoming WHERE data_id > ?1", before)) if (r.message_id !== id) out = `kept as ${r.message_id} what came as ${id}`;
          if (queue.sent.length > told) { told = queue.sent.length; saidAt = minutes(clock.now); if (queue.sent.some((x: any) => x.QueueUrl !== process.env.QUEUE_URL)) out = "told another queue"; }
        } else if (a.op === "handle") out = await said(() => mods.handle.handler());
        else if (a.op === "delete") out = await said(() => mods.delete.handler());
        clock.now += 60000;
      }
      if (again) return;
      const served: any[] = [];
      for (const s of ["2SITUATION", "5SITUATION", "7SITUATION", "5CONTROLLER", "7CONTROLLER", "5CONTROLLER_STATUS", "7CONTROLLER_STATUS"]) {
        try { served.push(read(await mods[s].handler({}), s[0]!, s.slice(1))); } catch (e) { served.push({ ver: s[0], kind: s.slice(1), error: String((e as Error).message) }); }
      }
      const last = pg.all("SELECT updated FROM data_updated WHERE data_type = 'VS_DATEX2'");
      if (pg.unsupported.length) throw new Error(`SQL not understood: ${pg.unsupported.splice(0)[0]}`);
      return { out, devices: pg.all("SELECT * FROM device").map(readDevice), rows: states(), last: last.length ? minutes(last[0].updated) : -1, said: saidAt, served,
        inbox: pg.all("SELECT type, status, created_at FROM data_incoming ORDER BY data_id").map((r) => ({ type: r.type, at: minutes(r.created_at), status: r.status })) };
    },
    match(e, o, a) {
      // refusing what cannot be read and failing over it are alike
      if (a.m?.kind === "malformed" && o.out === "failed") o = { ...o, out: "refused" };
      const set = (x: any[]): any => x.map((y) => JSON.stringify(canon(y))).sort();
      const f = (x: any): string => JSON.stringify(canon({ ...x, devices: set(x.devices), served: set(x.served) }));
      return f(e) === f(o);
    },
  };
};
main(Object.fromEntries(["older", "newer", "kept", "states", "list"].map((s) => [s, { adapter: of() }])));
