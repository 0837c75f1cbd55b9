import zlib from "node:zlib";
import { captureStdout, main, type Adapter } from "./rt.js";
import { LambdaProxyResponseBuilder, MAX_LAMBDA_PAYLOAD_BYTES } from "@lib/aws/types/lambda-proxy-types.js";
import { LambdaResponse, LambdaResponseBuilder } from "@lib/aws/types/lambda-response.js";

captureStdout(() => {});
// pseudo-random printable text that gzip cannot shrink below the limit
function noise(n: number): string { let s = 12345; const out: string[] = []; const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (let i = 0; i < n; i++) { s = (Math.imul(s, 1103515245) + 12345) >>> 0; out.push(abc[(s >>> 16) & 63]!); } return out.join(""); }
const LIMIT = 6 * 1024 * 1024;
const overhead = 400;
const OBJECT = { message: "ä", list: [1, 2, { x: null }] };
const TEXT: Record<string, () => string> = {
  empty: () => "", tiny: () => "hello", text: () => "compressible ".repeat(200), unicode: () => "ÅÄÖ åäö € 漢字 😀 ".repeat(100), object: () => JSON.stringify(OBJECT),
  huge: () => "x".repeat(LIMIT + 5), noise: () => noise(LIMIT + 2_000_000),
  justfits: () => "y".repeat(LIMIT - overhead), justover: () => "y".repeat(LIMIT - 40),
  wide: () => "ä".repeat(3_200_000), exact: () => "z".repeat(exactProxy()), exactplus: () => "z".repeat(exactProxy() + 1),
  lfits: () => "w".repeat(mostLambda()), lover: () => "w".repeat(mostLambda() + 3),
  toolarge: () => "Response too large. Limit response size with parameters.",
};
// how long a plain body may be before the whole response is too large: everything but the body is of one size
const spare = (r: any, f: "body"): number => Buffer.byteLength(JSON.stringify(r)) - r[f].length;
function exactProxy(): number { return LIMIT - spare(LambdaProxyResponseBuilder.create("z".repeat(LIMIT - 2000)).build(), "body"); }
function mostLambda(): number { return Math.floor((LIMIT - spare(LambdaResponseBuilder.create("w".repeat(3 * (1 << 20) + 300_000)).build(), "body")) / 4) * 3; }
// not text: told apart only byte by byte
const BYTES: Record<string, Buffer> = { bytes1: Buffer.from([0xff, 0xd8, 0xff, 0xe0, 1]), bytes2: Buffer.from([0xff, 0xd8, 0xfe, 0xe1, 1]), zeros: Buffer.alloc(5) };
const memo = new Map<string, string>();
const text = (id: string): string => { let t = memo.get(id); if (t === undefined) { t = TEXT[id] ? TEXT[id]!() : id; memo.set(id, t); } return t; };
const back = new Map<string, string>();
for (const k of Object.keys(TEXT)) if (!["noise"].includes(k)) back.set(text(k), k);
const idOf = (s: string): string => back.get(s) ?? (s === text("noise") ? "noise" : s.length < 60 ? s : `unknown content of ${s.length} chars`);
const T: Record<string, string> = { t1: "2024-02-03T04:05:06.000Z", t2: "2023-12-31T23:59:59.000Z" };
const timeId = (s: unknown): string => s === undefined ? "" : Object.keys(T).find((k) => new Date(T[k]!).toUTCString() === s) ?? String(s);

// a strong ETag, one per content and no two alike
const tagOf = new Map<string, string>(), contentOf = new Map<string, string>();
function etagId(tag: unknown, id: string): string {
  if (typeof tag !== "string" || !/^"[\x21\x23-\x7e]*"$/.test(tag)) return `not a strong entity tag: ${String(tag).slice(0, 60)}`;
  const had = tagOf.get(id);
  if (had === undefined) { if (contentOf.has(tag)) return contentOf.get(tag)!; tagOf.set(id, tag); contentOf.set(tag, id); return id; }
  return had === tag ? id : contentOf.get(tag) ?? "another tag than before";
}
function describe(r: any): unknown {
  const h = { ...r.headers };
  const take = (k: string): any => { const v = h[k]; delete h[k]; return v; };
  const enc = take("Content-Encoding") ?? "";
  let content: string;
  try {
    let buf = r.isBase64Encoded ? Buffer.from(r.body, "base64") : Buffer.from(r.body, "utf8");
    if (enc === "gzip") buf = zlib.gunzipSync(buf);
    content = Object.keys(BYTES).find((k) => BYTES[k]!.equals(buf)) ?? idOf(buf.toString("utf8"));
  } catch (e) { content = `undecodable: ${(e as Error).message}`; }
  const disp = take("Content-Disposition");
  const o = { kind: "response", status: r.statusCode, type: take("Content-Type"), file: disp === undefined ? "" : (/^attachment; filename="(.*)"$/.exec(disp)?.[1] ?? disp), location: take("Location") ?? "", modified: timeId(take("Last-Modified")), encoding: enc, base64: r.isBase64Encoded, content, etag: etagId(take("ETag"), content) };
  const size = Buffer.byteLength(JSON.stringify(r));
  if (size > LIMIT) return { ...o, tooLarge: size };
  return Object.keys(h).length ? { ...o, extraHeaders: h } : o;
}
let nth = 0;
function proxy(): Adapter {
  let b: LambdaProxyResponseBuilder;
  return {
    reset() { b = nth++ % 2 ? new LambdaProxyResponseBuilder().withBody("") : LambdaProxyResponseBuilder.create(); },
    step(a) {
      try {
        switch (a.op) {
          case "body": {
            const id = a.content.id;
            const raw = BYTES[id] ?? text(id);
            if (a.b64) b.withBody(Buffer.from(raw).toString("base64"), true);
            else b.withBody(id === "object" ? OBJECT : raw as string);
            break;
          }
          case "status": b.withStatus(a.v); break;
          case "file": b.withFileName(a.v); break;
          case "time": b.withTimestamp(a.v === "undefined" ? undefined : a.v.endsWith("d") ? new Date(T[a.v.slice(0, -1)]!) : T[a.v]!); break;
          case "location": b.withLocation(a.v); break;
          case "type": b.withContentType(a.v); break;
          case "compress": b.withCompression(a.v); break;
          case "build": b.withDebug(nth % 3 === 0); return describe(b.build());
          case "static": {
            if (a.what === "redirect") return describe(a.status ? LambdaProxyResponseBuilder.redirect(a.loc, a.status) : LambdaProxyResponseBuilder.redirect(a.loc));
            return describe((LambdaProxyResponseBuilder as any)[a.what](a.content === "object" ? OBJECT : text(a.content)));
          }
        }
        return { kind: "none" };
      } catch (_e) { return { kind: "throws" }; }
    },
  };
}
function describeOld(r: any): unknown {
  const content = idOf(Buffer.from(r.body, "base64").toString("utf8"));
  const tag = etagId(r.etag, content + (r.old ? " (old)" : ""));
  if (Buffer.from(Buffer.from(r.body, "base64").toString("utf8")).toString("base64") !== r.body) return { notBase64: r.body };
  if (tag.replace(" (old)", "") !== content) return { wrongEtag: r.etag, content };
  return { kind: "response", status: r.status, content, file: r.fileName ?? "", time: timeId(r.timestamp) };
}
function lambda(): Adapter {
  let b: LambdaResponseBuilder;
  return {
    reset() { nth++; b = LambdaResponseBuilder.create(); },
    step(a) {
      try {
        switch (a.op) {
          case "body": b.withBody(a.v === "object" ? OBJECT : text(a.v)); break;
          case "status": b.withStatus(a.v); break;
          case "file": b.withFileName(a.v); break;
          case "time": b.withTimestamp(a.v === "undefined" ? undefined : a.v.endsWith("d") ? new Date(T[a.v.slice(0, -1)]!) : T[a.v]!); break;
          case "build": b.withDebug(nth % 3 === 0); return describeOld(b.build());
          case "maker": return describeOld(a.content === "default" ? (LambdaResponseBuilder as any)[a.what]() : (LambdaResponseBuilder as any)[a.what](text(a.content)));
          case "old": {
            const file = a.file === "" ? undefined : a.file;
            let r: LambdaResponse;
            if (a.what === "okJson") r = LambdaResponse.okJson(a.content === "object" ? OBJECT : text(a.content), file);
            else if (a.what === "ok") r = LambdaResponse.ok(text(a.content), file);
            else if (a.what === "okBinary") r = LambdaResponse.okBinary(Buffer.from(text(a.content)).toString("base64"), file);
            else r = a.content === "default" ? (LambdaResponse as any)[a.what]() : (LambdaResponse as any)[a.what](text(a.content));
            const before = JSON.stringify(r);
            const r2 = a.time ? r.withTimestamp(new Date(T[a.time]!)) : r;
            if (JSON.stringify(r) !== before) return { mutated: true };
            const o = describeOld({ ...r2, old: true });
            // okJson of a string is its JSON form
            return a.what === "okJson" && a.content !== "object" ? { ...(o as any), content: JSON.parse(Buffer.from(r2.body, "base64").toString()) === text(a.content) ? a.content : "wrong" } : o;
          }
        }
        return { kind: "none" };
      } catch (e) { return (e as Error).message.includes("required") ? { kind: "throws" } : { kind: "throws", unexpected: String(e) }; }
    },
  };
}
if (MAX_LAMBDA_PAYLOAD_BYTES !== LIMIT) throw new Error("payload limit changed");
main({ proxytimes: { adapter: proxy }, lambdatimes: { adapter: lambda }, proxystatus: { adapter: proxy }, proxybytes: { adapter: proxy }, proxy: { adapter: proxy }, proxybig: { adapter: proxy }, lambda: { adapter: lambda }, lambdabig: { adapter: lambda } });
