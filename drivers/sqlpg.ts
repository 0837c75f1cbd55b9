// A PostgreSQL database for the code under test: the wire protocol of fakepg.ts, SQL executed by SQLite after a
// translation of the dialect. Timestamps are kept as epoch milliseconds and NOW() is the clock of the driver.
import { DatabaseSync } from "node:sqlite";
import { FakePg, type Answer, type Conn, type Field } from "./fakepg.js";

const RealDate = Date;
/** Date as the code under test sees it: it stands still until the driver moves it. Timers stay real. */
export const clock = { now: 0 };
export function fakeDate(): void {
  class FakeDate extends RealDate {
    constructor(...a: unknown[]) { if (a.length === 0) super(clock.now); else super(...(a as [])); }
    static override now(): number { return clock.now; }
  }
  Object.defineProperty(FakeDate, Symbol.hasInstance, { value: (x: unknown) => Object.prototype.toString.call(x) === "[object Date]" });
  // @ts-ignore
  globalThis.Date = FakeDate;
}
const UNIT: Record<string, number> = { millisecond: 1, second: 1e3, sec: 1e3, minute: 6e4, min: 6e4, hour: 36e5, day: 864e5, week: 6048e5, month: 30 * 864e5, year: 365.25 * 864e5 };
const unit = (u: string): number => { const x = UNIT[u.toLowerCase().replace(/s$/, "")]; if (!x) throw new Error(`unknown interval unit ${u}`); return x; };
const interval = (s: string): number => {
  let ms = 0;
  for (const m of s.trim().matchAll(/([-+]?\d+(?:\.\d+)?)\s*([a-zA-Z]+)/g)) ms += Number(m[1]) * unit(m[2]!);
  const t = /(\d+):(\d+):(\d+)/.exec(s); if (t) ms += Number(t[1]) * 36e5 + Number(t[2]) * 6e4 + Number(t[3]) * 1e3;
  return ms;
};
const ISO = /^\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d(\.\d+)?)?\s*(Z|[+-]\d\d(:?\d\d)?)?$/;
const isoMs = (s: string): number => RealDate.parse(`${s.trim().replace(" ", "T").replace(/([+-]\d\d)$/, "$1:00")}${/(Z|[+-]\d\d(:?\d\d)?)$/.test(s.trim()) ? "" : "Z"}`);

type Tok = { k: "s" | "w" | "n" | "o" | "p" | "q" | "sp"; v: string };
function tokens(sql: string): Tok[] {
  const out: Tok[] = [];
  const re = /(--[^\n]*|\/\*[\s\S]*?\*\/)|(\s+)|((?:[eE](?='))?'(?:[^']|'')*')|("(?:[^"]|"")*")|(\$\d+)|(\$([A-Za-z_]*)\$[\s\S]*?\$\7\$)|([A-Za-z_][A-Za-z0-9_]*)|(\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)|(::|<>|<=|>=|!=|\|\||->>|->|=>|@>|<@|&&|[\s\S])/g;
  for (const m of sql.matchAll(re)) {
    if (m[1]) continue;
    if (m[2]) out.push({ k: "sp", v: " " });
    else if (m[3]) out.push({ k: "s", v: m[3].replace(/^[eE]'/, "'") });
    else if (m[4]) out.push({ k: "q", v: m[4] });
    else if (m[5]) out.push({ k: "p", v: m[5] });
    else if (m[6]) out.push({ k: "s", v: `'${m[6].replace(/^\$\w*\$|\$\w*\$$/g, "").replace(/'/g, "''")}'` });
    else if (m[8]) out.push({ k: "w", v: m[8] });
    else if (m[9]) out.push({ k: "n", v: m[9] });
    else out.push({ k: "o", v: m[10]! });
  }
  return out;
}
const TYPES = /^(character|varying|varchar|text|integer|int|int4|int8|bigint|smallint|numeric|decimal|double|precision|real|float|float8|timestamp|timestamptz|date|time|with|without|zone|interval|json|jsonb|boolean|bool|uuid|geometry|geography|public|regclass)$/i;
export interface Options {
  ddl: string[];
  /** result columns that are expressions: name -> type */
  types?: Record<string, string>;
  functions?: Record<string, (...a: any[]) => any>;
  schemas?: string[];
  /** a last say on the translated text */
  rewrite?: (sql: string) => string;
  /** one transaction waits for another */
  serial?: boolean;
}
const OID = (t: string): number => /timestamp/i.test(t) ? 1184 : /^date/i.test(t) ? 1082 : /bool/i.test(t) ? 16 : /jsonb?/i.test(t) ? 3802 : /numeric|decimal/i.test(t) ? 1700 : /double|real|float/i.test(t) ? 701 : /bigint|serial/i.test(t) ? 20 : /int/i.test(t) ? 23 : /\[\]/.test(t) ? 1009 : 25;
export class SqlPg {
  readonly db = new DatabaseSync(":memory:");
  readonly pg: FakePg;
  private tables: string[] = [];
  private depth = 0;
  /** every statement that changes something or reads, as sent (after the driver's own ones) */
  log: { sql: string; ro: boolean; conn: number }[] = [];
  /** lets a driver fail a statement */
  fault?: (sql: string) => string | undefined;
  seq = 0;
  private aborted = new Set<number>();
  constructor(readonly o: Options) {
    this.db.function("__now", { deterministic: false }, () => clock.now);
    this.db.function("__interval", (s: any) => (s === null ? null : interval(String(s))));
    this.db.function("__ts", (s: any) => (s === null || typeof s === "number" ? s : ISO.test(String(s)) ? isoMs(String(s)) : /^\d{4}-\d\d-\d\d$/.test(String(s)) ? isoMs(`${s} 00:00`) : s));
    this.db.function("nextval", { varargs: true }, () => ++this.seq);
    this.db.function("__trunc", (u: any, t: any) => { if (t === null) return null; const d = new RealDate(Number(t)); const m = UNIT[String(u).toLowerCase()]!; if (u === "month") return RealDate.UTC(d.getUTCFullYear(), d.getUTCMonth(), 1); if (u === "year") return RealDate.UTC(d.getUTCFullYear(), 0, 1); return Number(t) - (Number(t) % m); });
    this.db.function("__arr", (s: any) => { if (s === null) return "[]"; const t = String(s); if (t.startsWith("[")) return t; const body = t.replace(/^\{|\}$/g, ""); if (body === "") return "[]"; return JSON.stringify([...body.matchAll(/"((?:[^"\\]|\\.)*)"|([^,]+)/g)].map((m) => (m[1] !== undefined ? m[1].replace(/\\(.)/g, "$1") : /^-?\d+(\.\d+)?$/.test(m[2]!) ? Number(m[2]) : m[2]))); });
    for (const [n, f] of Object.entries(o.functions ?? {})) this.db.function(n, { varargs: true }, f);
    for (const d of o.ddl) this.db.exec(d);
    this.tables = (this.db.prepare("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%'").all() as any[]).map((x) => x.name);
    this.pg = new FakePg({ accept: () => true, query: (c, sql, params) => this.turn(c, sql, params), closed: (c) => { if (c.inTx) this.end(c, false); } });
  }
  /** how many connections have asked for something */
  began = 0;
  private async turn(c: Conn, sql: string, params: (string | null)[]): Promise<Answer> {
    if (!(c as any).asked) { (c as any).asked = true; this.began++; }
    if (this.o.serial) while (this.pg.conns.some((x) => x !== c && x.open && x.inTx)) await new Promise((r) => setImmediate(r));
    return this.query(c, sql, params);
  }
  private started?: Promise<void>;
  async ready(): Promise<void> {
    this.started ??= this.pg.listen().then((port) => {
      process.env.DB_USER = "user"; process.env.DB_PASS = "pass"; process.env.DB_APPLICATION = "app";
      process.env.DB_URI = `127.0.0.1:${port}/rw`; process.env.DB_RO_URI = `127.0.0.1:${port}/ro`;
    });
    await this.started;
  }
  reset(): void {
    while (this.depth > 0) { this.db.exec(`ROLLBACK TO s${this.depth}; RELEASE s${this.depth}`); this.depth--; }
    for (const c of this.pg.conns) c.inTx = false;
    for (const t of this.tables) this.db.exec(`DELETE FROM "${t}"`);
    this.log = []; this.fault = undefined; this.seq = 0; this.aborted.clear();
    this.pg.conns = this.pg.conns.filter((c) => c.open);
  }
  insert(table: string, row: Record<string, any>): void { const ks = Object.keys(row); this.db.prepare(`INSERT INTO "${table}" (${ks.map((k) => `"${k}"`).join(",")}) VALUES (${ks.map(() => "?").join(",")})`).run(...ks.map((k) => (typeof row[k] === "boolean" ? Number(row[k]) : row[k] ?? null))); }
  all(sql: string, ...p: any[]): any[] { return this.db.prepare(sql).all(...p) as any[]; }
  private end(c: Conn, ok: boolean): void {
    const s = (c as any).save as number;
    c.inTx = false; this.aborted.delete(c.id);
    if (!s || s > this.depth) return;
    this.db.exec(ok ? `RELEASE s${s}` : `ROLLBACK TO s${s}; RELEASE s${s}`);
    this.depth = s - 1;
    // what others wrote in the meantime is theirs, and stays
    const others = (c as any).others as { sql: string; params: (string | null)[] }[] | undefined;
    (c as any).others = [];
    if (!ok) for (const o of others ?? []) { try { this.exec(this.tr(o.sql), o.params); } catch { /* it no longer fits */ } }
  }
  translate(sql: string): string {
    const schemas = new Set(["public", ...(this.o.schemas ?? [])]);
    let t = tokens(sql);
    // schema prefixes
    t = t.filter((x, i) => !((x.k === "w" && schemas.has(x.v.toLowerCase()) && t[i + 1]?.v === ".") || (x.v === "." && t[i - 1]?.k === "w" && schemas.has(t[i - 1]!.v.toLowerCase()))));
    const out: string[] = [];
    const sig = (i: number, d: number): number => { let j = i + d; while (t[j] && t[j]!.k === "sp") j += d; return j; };
    for (let i = 0; i < t.length; i++) {
      const x = t[i]!;
      if (x.v === "::") {
        let j = sig(i, 1); let name = "";
        while (t[j] && t[j]!.k === "w" && TYPES.test(t[j]!.v) && (name === "" || /^(varying|precision|with|without|time|zone)$/i.test(t[j]!.v))) { name += t[j]!.v.toLowerCase(); const n = sig(j, 1); if (t[n]?.v === "(") { let k = n; while (t[k] && t[k]!.v !== ")") k++; j = k + 1; } else j++; while (t[j]?.k === "sp" && t[sig(j, 1)]?.k === "w" && /^(varying|precision|with|without|time|zone)$/i.test(t[sig(j, 1)]!.v)) j++; }
        let arr = false;
        if (t[j]?.v === "[" && t[j + 1]?.v === "]") { j += 2; arr = true; }
        i = j - 1;
        // what is cast: the last operand written
        const wrap = (f: string): void => {
          let e = out.length - 1; while (e >= 0 && out[e] === " ") e--;
          let b = e;
          if (out[e] === ")") { let d = 0; for (; b >= 0; b--) { if (out[b] === ")") d++; if (out[b] === "(") { d--; if (d === 0) break; } } if (b > 0 && /^[A-Za-z_]\w*$/.test(out[b - 1]!) && !/^(in|and|or|not|select|where|when|then|else|on|by|as|values|case|union|all|from|set|returning)$/i.test(out[b - 1]!)) b--; }
          else while (b > 1 && out[b - 1] === ".") b -= 2;
          const part = out.splice(b, e - b + 1);
          out.push(f, "(", ...part, ")");
        };
        if (arr) { /* arrays are only read through __arr */ }
        else if (name === "interval") wrap("__interval");
        else if (/^(timestamp|date)/.test(name)) wrap("__ts");
        else if (/^(int|bigint|smallint)/.test(name)) { wrap("CAST"); out.splice(out.length - 1, 0, " AS INTEGER"); }
        else if (name === "text" || /^(varchar|character)/.test(name)) { wrap("CAST"); out.splice(out.length - 1, 0, " AS TEXT"); }
        continue;
      }
      if (x.k === "p") { out.push(`?${x.v.slice(1)}`); continue; }
      if (x.k === "s") { const s = x.v.slice(1, -1); out.push(ISO.test(s) ? String(isoMs(s)) : x.v); continue; }
      if (x.k === "w") {
        const w = x.v.toLowerCase(); const n = sig(i, 1);
        if (w === "interval" && t[n]?.k === "s") { out.push(String(interval(t[n]!.v.slice(1, -1)))); i = n; continue; }
        if (w === "interval" && t[n]?.k === "p") { out.push(`__interval(?${t[n]!.v.slice(1)})`); i = n; continue; }
        if (w === "now" && t[n]?.v === "(") { out.push("__now()"); i = sig(n, 1); continue; }
        if (w === "current_timestamp" || w === "localtimestamp") { out.push("__now()"); if (t[n]?.v === "(") { while (t[i]!.v !== ")") i++; } continue; }
        if (w === "current_date") { out.push("__trunc('day', __now())"); continue; }
        if (w === "date_trunc") { out.push("__trunc"); continue; }
        if ((w === "timestamptz" || w === "timestamp" || w === "date") && t[n]?.k === "s") { out.push(`__ts(${t[n]!.v})`); i = n; continue; }
        if (w === "extract" && t[n]?.v === "(" ) {
          const f = sig(n, 1), from = sig(f, 1);
          if (/^epoch$/i.test(t[f]!.v) && /^from$/i.test(t[from]!.v)) { out.push("__epoch", "("); i = from; continue; }
          if (/^(year|month|day|hour|minute|dow)$/i.test(t[f]!.v) && /^from$/i.test(t[from]!.v)) { out.push(`__part_${t[f]!.v.toLowerCase()}`, "("); i = from; continue; }
        }
        if (w === "greatest") { out.push("__greatest"); continue; }
        if (w === "least") { out.push("__least"); continue; }
        if (w === "ilike") { out.push("LIKE"); continue; }
        if (w === "any" && t[n]?.v === "(") {
          // x = any(list)
          let e = out.length - 1; while (out[e] === " ") e--;
          if (out[e] === "=" ) {
            out.splice(e, out.length - e, " IN (SELECT value FROM json_each(__arr(");
            let d = 0, k = n; const inner: Tok[] = [];
            for (; t[k]; k++) { if (t[k]!.v === "(") { d++; if (d === 1) continue; } if (t[k]!.v === ")") { d--; if (d === 0) break; } inner.push(t[k]!); }
            const isArr = inner.find((y) => y.k !== "sp")?.v.toLowerCase() === "array";
            const txt = this.translate(inner.map((y) => y.v).join(""));
            out.push(isArr ? txt.trim().replace(/^array\s*\[/i, "json_array(").replace(/\]\s*(::\w+(\[\])?)?$/, ")") : txt, ")))"); i = k; continue;
          }
        }
        if (w === "for" && /^(update|share)$/i.test(t[n]?.v ?? "")) { i = n; continue; }
        if (w === "only" && /^from$/i.test(t[sig(i, -1)]?.v ?? "")) continue;
      }
      out.push(x.v);
    }
    let s = out.join("").replace(/\b(delete\s+from\s+\w+)\s+(?!where\b|using\b|as\b|returning\b)([a-z_]\w*)/i, "$1 AS $2");
    if (this.o.rewrite) s = this.o.rewrite(s);
    return s;
  }
  private cache = new Map<string, string>();
  private tr(sql: string): string { let s = this.cache.get(sql); if (s === undefined) { s = this.translate(sql); this.cache.set(sql, s); } return s; }
  private typeOf(name: string, decl: string | null, rows: any[]): string {
    if (this.o.types?.[name]) return this.o.types[name]!;
    if (decl) return decl;
    const v = rows.map((r) => r[name]).find((y) => y !== null && y !== undefined);
    return typeof v === "number" ? (Number.isInteger(v) ? "bigint" : "double") : "text";
  }
  private text(v: any, t: string): string | null {
    if (v === null || v === undefined) return null;
    const oid = OID(t);
    if (oid === 1184) { const d = new RealDate(Number(v)); return d.toISOString().replace("T", " ").replace("Z", "+00"); }
    if (oid === 1082) return new RealDate(Number(v)).toISOString().slice(0, 10);
    if (oid === 16) return v && v !== "f" && v !== "false" ? "t" : "f";
    return String(v);
  }
  private statements = new Map<string, { st: any; used: number }>();
  private prepared(sql: string): { st: any; used: number } {
    let p = this.statements.get(sql);
    if (!p) { p = { st: this.db.prepare(sql), used: Math.max(0, ...[...sql.matchAll(/\?(\d+)/g)].map((m) => Number(m[1]))) }; this.statements.set(sql, p); }
    return p;
  }
  /** runs one translated statement; the rows it returns and how many it changed */
  private exec(sql: string, params: (string | null)[]): { fields?: Field[]; rows: (string | null)[][]; n: number } {
    const { st, used } = this.prepared(sql);
    const vals = params.slice(0, used).map((p) => (p === null ? null : ISO.test(p) ? isoMs(p) : p === "true" ? 1 : p === "false" ? 0 : p));
    const cols = st.columns() as { name: string; type: string | null }[];
    if (cols.length === 0) { const r = st.run(...vals); return { rows: [], n: Number(r.changes) }; }
    const rs = st.all(...vals) as any[];
    const types = cols.map((c) => this.typeOf(c.name, c.type, rs));
    return { fields: cols.map((c, i) => ({ name: c.name, oid: OID(types[i]!) })), rows: rs.map((r) => cols.map((c, i) => this.text(r[c.name], types[i]!))), n: rs.length };
  }
  private parts = new Map<string, string[]>();
  private writers = new Map<string, boolean>();
  query(c: Conn, sqlText: string, params: (string | null)[]): Answer {
    let parts = this.parts.get(sqlText);
    if (!parts) { parts = splitStatements(sqlText); this.parts.set(sqlText, parts); }
    let last: Answer = { tag: "EMPTY" };
    for (const p of parts) { last = this.one(c, p, params); if ("error" in last) return last; }
    return last;
  }
  private one(c: Conn, sqlText: string, params: (string | null)[]): Answer {
    const k = sqlText.trim().replace(/;$/, "").trim();
    const low = k.toLowerCase();
    if (/^begin|^start transaction/.test(low)) { c.inTx = true; (c as any).others = []; this.depth++; (c as any).save = this.depth; this.db.exec(`SAVEPOINT s${this.depth}`); return { tag: "BEGIN" }; }
    if (low === "commit" || low === "end") { const bad = this.aborted.has(c.id); this.end(c, !bad); return { tag: bad ? "ROLLBACK" : "COMMIT" }; }
    if (low === "rollback") { this.end(c, false); return { tag: "ROLLBACK" }; }
    if (/^(discard|set|reset|deallocate|analyze|refresh|lock)\b/.test(low)) return { tag: low.split(" ")[0]!.toUpperCase() };
    if (this.aborted.has(c.id)) return { error: "current transaction is aborted, commands ignored until end of transaction block", code: "25P02" };
    const fail = (m: string, code: string): Answer => { if (c.inTx) this.aborted.add(c.id); return { error: m, code }; };
    const ro = c.database === "ro";
    const writes = this.writers.get(k) ?? /\b(insert\s+into|update\s+\w|delete\s+from)\b/i.test(tokens(k).filter((x) => x.k !== "s").map((x) => x.v).join(""));
    this.writers.set(k, writes);
    this.log.push({ sql: k, ro, conn: c.id });
    if (ro && writes) return fail("cannot execute this statement in a read-only transaction", "25006");
    const f = this.fault?.(k);
    if (f) return fail(f, "XX000");
    // a statement is all or nothing
    this.db.exec("SAVEPOINT st");
    try {
      let sql = this.tr(k);
      // WITH x AS (DELETE/INSERT/UPDATE ... RETURNING ...) SELECT ...
      const m = /^\s*with\s+(\w+)\s+as\s*\(/i.exec(sql);
      if (m && /^\s*(delete|insert|update)\b/i.test(sql.slice(m[0].length))) {
        let d = 1, i = m[0].length; for (; i < sql.length && d > 0; i++) { if (sql[i] === "'") { i = sql.indexOf("'", i + 1); continue; } if (sql[i] === "(") d++; if (sql[i] === ")") d--; }
        const inner = sql.slice(m[0].length, i - 1);
        const st = this.db.prepare(inner);
        const rows = st.all() as any[];
        const cols = ((st as any).columns() as { name: string }[]).map((y) => y.name);
        this.db.exec(`DROP TABLE IF EXISTS temp."${m[1]}"; CREATE TEMP TABLE "${m[1]}" (${cols.map((y) => `"${y}"`).join(",")})`);
        for (const r of rows) this.db.prepare(`INSERT INTO temp."${m[1]}" VALUES (${cols.map(() => "?").join(",")})`).run(...cols.map((y) => r[y]));
        sql = sql.slice(i);
      }
      const r = this.exec(sql, params);
      this.db.exec("RELEASE st");
      if (writes && !c.inTx) for (const o of this.pg.conns) if (o !== c && o.inTx) ((o as any).others ??= []).push({ sql: k, params });
      const verb = (/^\s*(\w+)/.exec(low)?.[1] ?? "").toUpperCase();
      const tag = verb === "INSERT" ? `INSERT 0 ${r.n}` : verb === "UPDATE" || verb === "DELETE" ? `${verb} ${r.n}` : `SELECT ${r.rows.length}`;
      return r.fields ? { fields: r.fields, rows: r.rows, tag } : { tag };
    } catch (e) {
      try { this.db.exec("ROLLBACK TO st; RELEASE st"); } catch { /* the statement already ended it */ }
      const msg = String((e as Error).message);
      if (!/constraint/i.test(msg)) this.unsupported.push(`${msg}: ${k.slice(0, 300)}`);
      return fail(msg, /UNIQUE/.test(msg) ? "23505" : /NOT NULL/.test(msg) ? "23502" : /CHECK/.test(msg) ? "23514" : /FOREIGN/.test(msg) ? "23503" : "42601");
    }
  }
  unsupported: string[] = [];
}
function splitStatements(sql: string): string[] {
  const out: string[] = []; let cur = "";
  for (const t of tokens(sql)) { if (t.v === ";") { if (cur.trim()) out.push(cur); cur = ""; } else cur += t.v; }
  if (cur.trim()) out.push(cur);
  return out;
}
/** helper functions the translation relies on */
export const basics: Record<string, (...a: any[]) => any> = {
  __epoch: (x: any) => (x === null ? null : Number(x) / 1000),
  __greatest: (...a: any[]) => { const b = a.filter((x) => x !== null); return b.length ? b.reduce((p, q) => (q > p ? q : p)) : null; },
  __least: (...a: any[]) => { const b = a.filter((x) => x !== null); return b.length ? b.reduce((p, q) => (q < p ? q : p)) : null; },
  __part_year: (x: any) => (x === null ? null : new RealDate(Number(x)).getUTCFullYear()),
  __part_month: (x: any) => (x === null ? null : new RealDate(Number(x)).getUTCMonth() + 1),
  __part_day: (x: any) => (x === null ? null : new RealDate(Number(x)).getUTCDate()),
  __part_hour: (x: any) => (x === null ? null : new RealDate(Number(x)).getUTCHours()),
};
