// MySQL at the interface of its client, the statements being run by SQLite after a translation of the dialect. One transaction at a time.
import { DatabaseSync } from "node:sqlite";
import { clock } from "../sqlpg.js";
const p2 = (n: number): string => String(n).padStart(2, "0");
const text = (d: Date): string => `${d.getUTCFullYear()}-${p2(d.getUTCMonth() + 1)}-${p2(d.getUTCDate())} ${p2(d.getUTCHours())}:${p2(d.getUTCMinutes())}:${p2(d.getUTCSeconds())}`;
const at = (ms: number): string => text(new Date(ms));
export const mysql = {
  db: undefined as unknown as DatabaseSync,
  held: 0,
  /** where the next fault strikes: connect, begin, commit, or a statement that the expression finds; and how many times */
  fault: undefined as undefined | { where: string | RegExp; times: number },
  statements: 0,
};
const strikes = (where: string, sql?: string): void => {
  const f = mysql.fault;
  if (!f || f.times === 0 || (sql !== undefined ? typeof f.where === "string" || !f.where.test(sql) : f.where !== where)) return;
  f.times--;
  throw Object.assign(new Error("the database fails"), { code: "ER_FAULT" });
};
export function open(ddl: string[]): void {
  mysql.db?.close();
  const db = new DatabaseSync(":memory:");
  const fn = (n: string, f: (...a: any[]) => any): void => { db.function(n, { varargs: true, deterministic: false }, f); };
  fn("NOW", () => at(clock.now));
  fn("CURRENT_TIME_OF_DB", () => at(clock.now));
  fn("MINUS_DAYS", (t: string, n: number) => at(Date.parse(`${t.replace(" ", "T")}Z`) - n * 864e5));
  fn("REVERSE", (s: any) => (s === null ? null : [...String(s)].reverse().join("")));
  fn("BITS", (s: any) => (s === null ? null : parseInt(String(s), 2)));
  fn("EXPORT_SET", (b: any, on: string, off: string, sep: string, n: number) => (b === null ? null : Array.from({ length: Number(n) }, (_, i) => ((Number(b) >> i) & 1 ? on : off)).join(sep)));
  fn("DATE_FORMAT", (t: any, f: string) => {
    if (t === null) return null;
    const s = String(t), m = /^(?:(\d+)-(\d+)-(\d+))?[ T]?(?:(\d+):(\d+)(?::(\d+))?)?/.exec(s)!;
    const [, Y, mo, d, H = "00", mi = "00", sec = "00"] = m;
    return f.replace(/%(.)/g, (_, c) => ({ Y: Y!, m: mo!, d: d!, T: `${p2(+H)}:${mi}:${sec}`, k: String(+H), H: p2(+H), i: mi, s: sec, S: sec, e: String(+d!) } as Record<string, string>)[c] ?? c);
  });
  for (const x of ddl) db.exec(x);
  mysql.db = db;
}
const value = (v: any): any => v === undefined || v === null ? null : typeof v === "boolean" ? Number(v) : v instanceof Date ? text(v) : typeof v === "string" && /^\d{4}-\d\d-\d\d[ T]\d\d:\d\d(:\d\d(\.\d+)?Z?)?$/.test(v) ? (v.length === 16 ? `${v}:00` : v).replace("T", " ").slice(0, 19) : v;
const lit = (v: any): string => { const x = value(v); return x === null ? "NULL" : typeof x === "number" ? String(x) : `'${String(x).replace(/'/g, "''")}'`; };
function run(sql0: string, params: any, named: boolean, strict: boolean): any {
  mysql.statements++;
  strikes("", sql0);
  let sql = sql0.replace(/--[^\n]*/g, "").replace(/\bb:(\w+)/g, "BITS(:$1)").replace(/\bcurrent_timestamp(\(\))?|\bnow\(\)/gi, "CURRENT_TIME_OF_DB()").replace(/CURRENT_TIME_OF_DB\(\)\s*-\s*INTERVAL\s+(\d+)\s+DAY/gi, "MINUS_DAYS(CURRENT_TIME_OF_DB(), $1)")
    .replace(/ON DUPLICATE KEY UPDATE/gi, "ON CONFLICT DO UPDATE SET").replace(/\bVALUES\s*\((\w+)\)(?=\s*(,|$))/gim, "excluded.$1");
  if (/^\s*DELETE/i.test(sql)) sql = sql.replace(/\bLIMIT\s+\d+\s*;?\s*$/i, "");
  const args: any[] = [];
  if (Array.isArray(params)) {
    let i = 0;
    sql = sql.replace(/\?/g, () => {
      const v = params[i++];
      if (Array.isArray(v)) { if (v.length === 0) throw new Error("You have an error in your SQL syntax"); return Array.isArray(v[0]) ? v.map((r: any[]) => `(${r.map(lit).join(", ")})`).join(", ") : v.map(lit).join(", "); }
      if (v === undefined && strict) throw new Error("Bind parameters must not contain undefined");
      return lit(v);
    });
  } else if (params !== undefined && params !== null) {
    if (!named) throw new Error("named placeholders are not turned on");
    const bound: Record<string, any> = {};
    for (const m of sql.matchAll(/(?<![:\w]):(\w+)/g)) { const v = params[m[1]!]; if (v === undefined && strict) throw new Error("Bind parameters must not contain undefined"); bound[m[1]!] = value(v); }
    args.push(bound);
  }
  const before = /ON CONFLICT/.test(sql) ? (mysql.db.prepare("SELECT total_changes() c").get() as any).c : 0;
  void before;
  const st = mysql.db.prepare(sql);
  if (/^\s*(SELECT|WITH)/i.test(sql)) {
    const rows = st.all(...args) as any[];
    for (const r of rows) for (const k of Object.keys(r)) { const v = r[k]; if (typeof v === "string" && v.startsWith("{")) r[k] = JSON.parse(v); else if (k === "scheduled_time" && typeof v === "string") r[k] = new Date(`${v.replace(" ", "T")}Z`); }
    return [rows.map((r) => ({ ...r })), []];
  }
  const x = st.run(...args);
  return [{ affectedRows: Number(x.changes) }, undefined];
}
let lock: Promise<void> = Promise.resolve();
const tick = (): Promise<void> => new Promise((r) => setImmediate(r));
export function createPool(config: any): any {
  const getConnection = async (): Promise<any> => {
    await tick();
    strikes("connect");
    mysql.held++;
    let free: undefined | (() => void), released = false;
    const end = (): void => { const f = free; free = undefined; f?.(); };
    const conn: any = {
      async beginTransaction() { await tick(); strikes("begin"); const before = lock; let go!: () => void; lock = new Promise((r) => { go = r; }); await before; mysql.db.exec("BEGIN"); free = go; },
      async commit() { await tick(); strikes("commit"); if (free) { mysql.db.exec("COMMIT"); end(); } },
      async rollback() { await tick(); if (free) { mysql.db.exec("ROLLBACK"); end(); } },
      async query(sql: any, params: any) { await tick(); if (released) throw new Error("the connection is released"); return run(sql.sql ?? sql, params, config.namedPlaceholders, false); },
      async execute(sql: any, params: any) { await tick(); if (released) throw new Error("the connection is released"); return run(sql.sql ?? sql, params, config.namedPlaceholders, true); },
      // what is left open goes on with the next user of the connection, whose transaction commits it
      release() { if (released) return; released = true; mysql.held--; if (free) { mysql.db.exec("COMMIT"); end(); } },
    };
    return conn;
  };
  const once = (m: string) => async (sql: any, params: any) => { const c = await getConnection(); try { return await c[m](sql, params); } finally { c.release(); } };
  return { getConnection, query: once("query"), execute: once("execute"), end: async () => {} };
}
export default { createPool };
