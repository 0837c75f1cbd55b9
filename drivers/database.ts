import { AsyncLocalStorage } from "node:async_hooks";
import { captureStdout, main, realSleep, type Adapter } from "./rt.js";
import { FakePg, type Answer, type Conn } from "./fakepg.js";
import { inDatabase, inDatabaseReadonly, inTransaction } from "@lib/database/database.js";

const who = new AsyncLocalStorage<Sess>();
console.warn = () => {}; console.error = () => {};
interface Sess { kind: string; out: string; sent: string[]; target: string; last: string; logged: number; pending?: (a: Answer) => void; accept?: (ok: boolean) => void; conns: Conn[]; inside?: { query: (q: string) => void; finish: () => void; fail: (e: unknown) => void }; lastErr?: unknown; threw?: unknown; staged: string[]; n: number; rev: number }
let sess: Record<string, Sess> = {};
let committed = new Set<string>();
let tour = 0;
captureStdout((l) => { const s = who.getStore(); if (s) { const j = JSON.parse(l); if (j.level === "ERROR") { s.logged++; s.rev++; } } });
const owner = (c: Conn): Sess | undefined => Object.entries(sess).find(([k]) => c.app === `app-${k}-${tour}`)?.[1];
const NAMES: Record<string, string> = { "discard all": "discard", begin: "begin", commit: "commit", rollback: "rollback" };
function make(target: string): FakePg {
  return new FakePg({
    accept(c) {
      const s = owner(c);
      if (!s) return false;
      s.target = c.user === "the user" && c.password === "pass" && c.database === `base-${target}` ? (s.conns.length ? `${s.target}+${target}` : target) : `wrong credentials ${c.user} ${c.password} ${c.database}`;
      s.conns.push(c); s.rev++;
      return new Promise((r) => { s.accept = (ok) => { s.accept = undefined; r(ok); }; });
    },
    query(c, sql) {
      const s = owner(c);
      if (!s) return Promise.resolve({ drop: true });
      const k = sql.trim().replace(/;$/, "").toLowerCase();
      const name = NAMES[k] ?? (k.startsWith("insert") ? "write" : k.startsWith("select") ? "select" : k);
      s.sent.push(name);
      s.rev++;
      return new Promise((r) => {
        s.pending = (a) => {
          s.pending = undefined;
          if ("tag" in a) {
            if (name === "begin") c.inTx = true;
            if (name === "write") { const id = /'(.*)'/.exec(sql)![1]!; if (c.inTx) s.staged.push(id); else committed.add(id); }
            if (name === "commit") { for (const x of s.staged) committed.add(x); s.staged = []; c.inTx = false; }
            if (name === "rollback") { s.staged = []; c.inTx = false; }
          }
          r(a);
        };
      });
    },
    closed(c) { const s = owner(c); if (s) s.rev++; },
  });
}
const rw = make("rw"), ro = make("ro");
const classify = (e: unknown): string => { const m = e instanceof Error ? e.message : String(e); return m === "own error" ? m : m === "boom at the server" ? "sql error" : /DB_(RO_)?URI/.test(m) ? "not configured" : "connection"; };
let ready: Promise<unknown> | undefined;
function adapter(): Adapter {
  const until = async (s: Sess, f: () => boolean): Promise<void> => { for (let i = 0; i < 4000 && !f(); i++) await new Promise((r) => (i < 200 ? setImmediate(r) : setTimeout(r, 1))); void s; };
  return {
    async reset() {
      ready ??= Promise.all([rw.listen(), ro.listen()]);
      await ready;
      // a session the last behaviour left unfinished is brought to its end
      for (const s of Object.values(sess)) for (const c of s.conns) c.sock.destroy();
      sess = {}; committed = new Set(); tour++;
      rw.conns = []; ro.conns = [];
    },
    async step(a) {
      const names = [a.s];
      let s = sess[a.s];
      if (a.op === "open") {
        s = sess[a.s] = { kind: a.kind, out: "pending", sent: [], target: "-", last: "-", logged: 0, conns: [], staged: [], n: 0, rev: 0 };
        process.env.DB_USER = "the%20user"; process.env.DB_PASS = "pass";
        process.env.DB_URI = `127.0.0.1:${rw.port}/base-rw`; process.env.DB_RO_URI = `127.0.0.1:${ro.port}/base-ro`;
        process.env.DB_APPLICATION = `app-${a.s}-${tour}`;
        if (a.env === "norw") delete process.env.DB_URI;
        if (a.env === "noro") delete process.env.DB_RO_URI;
        const cur = s;
        const work = (db: any): Promise<string> => new Promise((res, rej) => {
          cur.inside = {
            query: (q) => {
              cur.inside = { ...cur.inside! };
              const p: Promise<any> = q === "write" ? db.none("INSERT INTO t VALUES ($1)", [`${a.s}.${cur.n}`]) : db.many("SELECT a, b, c, d FROM t");
              p.then((row) => { cur.last = q === "write" ? "written" : row.map((r: any) => `${String(r.a)} ${JSON.stringify(r.b)} ${JSON.stringify(r.c)} ${JSON.stringify(r.d)}`).join("|"); cur.rev++; }, (e) => { cur.lastErr = e; cur.last = classify(e); cur.rev++; });
            },
            finish: () => { cur.inside = undefined; res("the value"); },
            fail: (e) => { cur.inside = undefined; cur.threw = e; rej(e); },
          };
          cur.last = "-"; cur.rev++;
        });
        const run = a.kind === "ro" ? inDatabaseReadonly : a.kind === "tx" ? inTransaction : inDatabase;
        who.run(cur, () => {
          let p: Promise<unknown>;
          try { p = a.nulls ? run(work as any, true) : run(work as any); } catch (e) { p = Promise.reject(e); }
          p.then((v) => { cur.out = v === "the value" ? "value" : `wrong value ${String(v)}`; cur.rev++; }, (e) => { cur.out = classify(e); if (e !== cur.threw && (cur.out === "own error" || (cur.threw && cur.kind !== "tx"))) cur.out += ", but not the one thrown"; cur.rev++; });
        });
        await until(s, () => s!.accept !== undefined || s!.out !== "pending");
      } else {
        const cur = s!;
        const before = cur.sent.length;
        cur.last = a.op === "accept" || a.op === "answer" ? "waiting" : cur.last;
        if (a.op === "accept") cur.accept!(a.ok);
        else if (a.op === "answer") {
          const name = cur.sent[cur.sent.length - 1]!;
          cur.pending!(a.r === "drop" ? { drop: true } : a.r === "error" ? { error: "boom at the server" } : name === "select"
            ? { fields: [{ name: "a", oid: 25 }, { name: "b", oid: 20 }, { name: "c", oid: 701 }, { name: "d", oid: 1700 }], rows: [[null, "42", "1.5", "2.50"], ["x", "9007199254740991", "-0.25", null]], tag: "SELECT 2" } : { tag: name === "write" ? "INSERT 0 1" : name.toUpperCase() });
        } else if (a.op === "query") { cur.n++; cur.inside!.query(a.q); }
        else if (a.op === "finish") cur.inside!.finish();
        else if (a.op === "throw") cur.inside!.fail(a.e === "rethrow" ? cur.lastErr : new Error("own error"));
        await until(cur, () => cur.out !== "pending" || cur.pending !== undefined || (a.op !== "finish" && a.op !== "throw" && a.op !== "query" && cur.inside !== undefined && cur.last !== "waiting"));
        void before;
      }
      const cur = s!;
      // a settled session has nothing left open; what the server has not seen of it yet is given a moment
      if (cur.out !== "pending" || a.r === "drop") await until(cur, () => cur.conns.every((c) => !c.open));
      await new Promise((r) => setImmediate(r));
      void names; void realSleep;
      return {
        s: Object.fromEntries(all.map((k) => { const x = sess[k]; return [k, x ? { out: x.out, sent: x.sent, target: x.target, last: x.out === "pending" && x.inside && !x.pending ? x.last : "-", conns: x.conns.filter((c) => c.open).length, logged: x.logged } : { out: "pending", sent: [], target: "-", last: "-", conns: 0, logged: 0 }]; })),
        committed: new Set(committed),
      };
    },
    match(e, o) { const ex = { ...e, committed: new Set(e.committed) }; return JSON.stringify(sort(ex)) === JSON.stringify(sort(o)); },
  };
}
const sort = (v: any): any => v instanceof Set ? [...v].sort() : Array.isArray(v) ? v.map(sort) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sort(v[k])])) : v;
let all: string[] = [];
const of = (n: string[]) => () => { all = n; return adapter(); };
main({ one: { adapter: of(["s"]) }, two: { adapter: of(["s", "t"]) } });
