import "./env-fn.js";
import { captureStdout, takeLogs, main, same, type Adapter } from "./rt.js";
import * as G from "@lib/utils/geometry.js";
import * as Z from "@lib/utils/zod-utils.js";
import * as D from "@lib/utils/date-utils.js";
import * as B from "@lib/utils/base64.js";
import * as U from "@lib/utils/utils.js";
import * as Id from "@lib/marine/id_utils.js";
import * as GJ from "@lib/types/geojson.js";
import { SlackApi } from "@lib/utils/slack.js";
import { uploadToS3 } from "@lib/aws/runtime/s3.js";
import { S3Client, sent, s3State } from "./stubs/s3.js";

captureStdout();
const nums = (x: any): any => (Array.isArray(x) ? x.map(nums) : Number(x));
const UTF = "ä €, 🂊";
const uni = (s: string): string => s.replace("(utf)", UTF);
const attempt = async (f: () => any): Promise<any> => { try { return await f(); } catch (e) { void e; return { refused: true }; } };
const leaf = (v: string): any => ({ "(null)": null, "(5)": 5, "(true)": true } as any)[v] ?? (v === "(null)" ? null : v);
const build = (t: any): any => ("l" in t ? (t.l === "(null)" ? null : leaf(t.l)) : "a" in t ? t.a.map(build) : Object.fromEntries(Object.entries(Array.isArray(t.o) ? {} : t.o).map(([k, v]) => [k, build(v)])));
const unbuild = (v: any): any => (v === null ? { l: "(null)" } : Array.isArray(v) ? { a: v.map(unbuild) } : typeof v === "object" ? { o: Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unbuild(x)])) } : { l: typeof v === "string" ? v : `(${String(v)})` });
function adapter(): Adapter {
  const one: Record<string, (a: any) => any> = {
    wkt: (a) => ({ text: G.createGeometry({ type: a.g.type, coordinates: nums(a.g.coordinates) } as any), logged: takeLogs().filter((l) => JSON.parse(l).level === "ERROR").length }),
    gml: (a) => attempt(() => { const g = { type: a.g.type, coordinates: nums(a.g.coordinates) } as any; return a.srs === "-" ? G.createGmlLineString(g) : G.createGmlLineString(g, a.srs); }),
    distance: (a) => attempt(() => { const p = nums(a.p), q = nums(a.q); const m = G.distanceBetweenPositionsInM(p, q); return { metres: Math.round(m), km: Math.abs(G.distanceBetweenPositionsInKm(p, q) * 1000 - m) < 1e-6 }; }),
    distinct: (a) => ({ distinct: G.areDistinctPositions(nums(a.p), nums(a.q)) }),
    geojson: (a) => {
      const f = { type: "Feature", geometry: a.g, properties: { name: "x" } };
      const good = { type: "Feature", geometry: { type: "Point", coordinates: [1, 2] }, properties: {}, id: 5 };
      return { geometry: GJ.GeometrySchema.safeParse(a.g).success, feature: GJ.FeatureSchema.safeParse(f).success, collection: GJ.FeatureCollectionSchema.safeParse({ type: "FeatureCollection", features: [good, f] }).success };
    },
    collection: (a) => {
      const date = a.date === "null" ? null : new Date(a.date);
      const fs = a.features.map((n: string) => ({ type: "Feature", geometry: { type: "Point", coordinates: [1, 2] }, properties: { n } }));
      const c = G.createFeatureCollection(fs, date);
      const j = JSON.parse(JSON.stringify(c));
      return { type: j.type, lastUpdated: j.lastUpdated === null ? "null" : j.lastUpdated, features: j.features.map((f: any) => f.properties.n), valid: G.isFeatureCollection(j) && G.isValidGeoJson(j) };
    },
    notgeojson: (a) => { const x: any = ({ empty: {}, list: [], notype: { coordinates: [1, 2] }, badcoords: { type: "Point", coordinates: ["a", "b"] }, featureless: { type: "FeatureCollection" } } as any)[a.x]; return { valid: G.isValidGeoJson(x), isCollection: G.isFeatureCollection(x) }; },
    imo: (a) => ({ valid: Id.isValidIMO(a.n) }),
    mmsi: (a) => ({ valid: Id.isValidMMSI(a.n) }),
    locode: (a) => ({ valid: Id.isValidLOCODE(a.s) }),
    param: ({ x }) => {
      const f: any = { number: Z.zStringToNumber, date: Z.zStringToDate, text: Z.zNonEmptyString }[x.kind as "number"];
      let s = x.message === "-" ? f() : f(x.message);
      if (x.optional) s = s.optional();
      const r = s.safeParse(x.value === "-" ? undefined : x.value);
      if (r.success) return { value: r.data === undefined ? "-" : r.data instanceof Date ? r.data.toISOString() : typeof r.data === (x.kind === "number" ? "number" : "string") ? String(r.data) : `${typeof r.data} ${r.data}` };
      return { fails: x.value === "-" ? "missing" : r.error.issues.map((i: any) => i.message).join(";") };
    },
    isodate: async (a) => { const d = await attempt(() => D.dateFromIsoString(a.s)); return d instanceof Date ? { date: Number.isNaN(d.getTime()) ? "invalid" : d.toISOString() } : d; },
    utc: (a) => { const before = process.env.TZ; process.env.TZ = a.zone; try { return { text: D.dateToUTCString(new Date(a.d), a.f === "mysql" ? D.MYSQL_DATETIME_FORMAT : a.f) }; } finally { process.env.TZ = before; } },
    diff: (a) => ({ ms: D.countDiffMs(new Date(a.from), new Date(a.to)), thousands: 1000 * D.countDiffInSeconds(new Date(a.from), new Date(a.to)) }),
    base64: (a) => {
      const t = uni(a.text);
      if (a.kind === "ascii") { const e = B.encodeAsciiToBase64(t); return { encoded: e, decoded: B.decodeBase64ToAscii(e) }; }
      if (a.kind === "utf8") { const e = B.encodeUtf8ToBase64(t); return { encoded: e, decoded: B.decodeBase64ToUtf8(e).replace(UTF, "(utf)") }; }
      return { encoded: "-", decoded: B.decodeBase64ToUtf8(B.compressBuffer(Buffer.from(t, "utf8")).toString("base64"), true).replace(UTF, "(utf)") };
    },
    samevalues: (a) => {
      const v = (x: any): any => (x.list ? x.v.map((y: string) => ({ "1": 1, null: null, undefined }[y as "1"] !== undefined || y === "null" || y === "undefined" ? ({ "1": 1, null: null, undefined } as any)[y] : y)) : x.v[0] === "null" ? null : undefined);
      return { same: U.bothArraysHasSameValues(v(a.x), v(a.y)) };
    },
    ends: async (a) => { const g = async (f: any): Promise<any> => { const r = await attempt(() => f([...a.v])); return r?.refused ? "refused" : r; }; return { first: await g(U.getFirst), last: await g(U.getLast) }; },
    omit: (a) => { const t = build(a.t); const before = JSON.stringify(t); const r = U.omitDeep(t, ...a.keys); return { tree: unbuild(r), untouched: JSON.stringify(t) === before && (r !== t || typeof t !== "object") || t === null }; },
    setenv: (a) => { U.setEnvVariable(`VALUES_${a.k}`, a.v); return { set: process.env[`VALUES_${a.k}`] === a.v }; },
    getenv: async (a) => {
      const k = `VALUES_${a.k}`;
      const g = await attempt(() => U.getEnvVariable(k));
      const s = U.getEnvVariableSafe(k);
      let called = false;
      const or = U.getEnvVariableOr(k, () => { called = true; return "other"; });
      const orElse = U.getEnvVariableOrElse(k, "other");
      return { get: g?.refused ? "refused" : g, safe: s.result === "ok" ? `ok ${s.value}` : "error", orElse: or === orElse ? orElse : `${or} or ${orElse}`, orCalled: called };
    },
    defined: (a) => ({ defined: U.isDefined(({ undefined, null: null, "0": 0, empty: "", false: false, NaN: NaN, list: [], text: "x" } as any)[a.x]) }),
    owns: (a) => {
      const o: any = { own: { a: undefined }, inherited: Object.create({ a: 1 }), bare: Object.assign(Object.create(null), { a: 1 }), shadowed: { a: 0, hasOwnProperty: () => false } }[a.object as "own"];
      return { owns: U.hasOwnPropertySafe(o, a.name) };
    },
    message: (a) => ({ text: U.getErrorMessage(({ error: new TypeError("wrong"), string: "plain", null: null, undefined, number: 42 } as any)[a.e]) }),
    notify: async (a) => {
      const posts: any[] = [];
      globalThis.fetch = (async (r: any, init: any) => {
        const q = r instanceof Request ? r : new Request(r, init);
        posts.push({ url: q.url, text: q.method === "POST" ? JSON.parse(await q.clone().text()).text : q.method });
        if (a.answer === "down") throw new TypeError("fetch failed");
        return new Response("x", { status: a.answer === "ok" ? 200 : Number(a.answer) });
      }) as any;
      let threw = false;
      takeLogs();
      try { await new SlackApi("https://hooks.example.com/abc").notify(a.text); } catch { threw = true; }
      return { posts, threw, errors: takeLogs().filter((l) => JSON.parse(l).level === "ERROR").length };
    },
    upload: async (a) => {
      sent.length = 0; s3State.answer = a.answer; takeLogs();
      let threw = false;
      try { await uploadToS3(new S3Client() as any, a.bucket, a.body, a.key, a.acl === "-" ? undefined : a.acl, a.type === "-" ? undefined : a.type); } catch { threw = true; }
      return { puts: sent.map((c) => ({ bucket: c.input.Bucket, key: c.input.Key, body: c.input.Body, acl: c.input.ACL ?? "-", contentType: c.input.ContentType ?? "-" })), threw, errors: takeLogs().filter((l) => JSON.parse(l).level === "ERROR").length };
    },
  };
  return {
    reset() { delete process.env.VALUES_X; delete process.env.VALUES_Y; takeLogs(); },
    async step(a) { const r = await one[a.op]!(a); takeLogs(); return r; },
    match: (e, o) => same(e, o),
  };
}
main({ geometry: { adapter }, identifiers: { adapter }, numbers: { adapter }, collections: { adapter } });
