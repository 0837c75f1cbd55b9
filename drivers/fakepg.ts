// A PostgreSQL server as seen on the wire (protocol 3.0), whose answers are decided by the driver.
import net from "node:net";

export interface Field { name: string; oid: number }
export type Answer = { fields?: Field[]; rows?: (string | null)[][]; tag: string } | { error: string; code?: string } | { drop: true };
export interface Conn { id: number; user?: string; password?: string; database?: string; app?: string; open: boolean; terminated: boolean; sock: net.Socket; inTx: boolean }
export interface Hooks {
  accept(c: Conn): Promise<boolean> | boolean;
  query(c: Conn, sql: string, params: (string | null)[]): Promise<Answer>;
  closed?(c: Conn): void;
}
const i32 = (n: number): Buffer => { const b = Buffer.alloc(4); b.writeInt32BE(n); return b; };
const i16 = (n: number): Buffer => { const b = Buffer.alloc(2); b.writeInt16BE(n); return b; };
const cstr = (s: string): Buffer => Buffer.concat([Buffer.from(s, "utf8"), Buffer.from([0])]);
const msg = (t: string, ...parts: Buffer[]): Buffer => { const body = Buffer.concat(parts); return Buffer.concat([Buffer.from(t), i32(body.length + 4), body]); };

export class FakePg {
  server: net.Server;
  conns: Conn[] = [];
  port = 0;
  private n = 0;
  constructor(readonly hooks: Hooks) { this.server = net.createServer((s) => this.serve(s)); }
  listen(): Promise<number> { return new Promise((r) => this.server.listen(0, "127.0.0.1", () => { this.port = (this.server.address() as net.AddressInfo).port; r(this.port); })); }
  get open(): number { return this.conns.filter((c) => c.open).length; }
  private serve(sock: net.Socket): void {
    const c: Conn = { id: ++this.n, open: true, terminated: false, sock, inTx: false };
    this.conns.push(c);
    sock.setNoDelay(true);
    let buf = Buffer.alloc(0);
    let started = false;
    const stmts = new Map<string, string>();
    const portals = new Map<string, { sql: string; params: (string | null)[] }>();
    const queue: (() => Promise<void>)[] = [];
    let running = false;
    const pump = async (): Promise<void> => { if (running) return; running = true; for (let f = queue.shift(); f; f = queue.shift()) await f(); running = false; };
    const push = (f: () => Promise<void>): void => { queue.push(f); void pump(); };
    const closed = (): void => { if (c.open) { c.open = false; this.hooks.closed?.(c); } };
    sock.on("close", closed); sock.on("error", () => {}); sock.on("end", () => sock.end());
    const send = (...b: Buffer[]): void => { if (!sock.destroyed) sock.write(Buffer.concat(b)); };
    const ready = (): Buffer => msg("Z", Buffer.from(c.inTx ? "T" : "I"));
    const err = (m: string, code = "XX000"): Buffer => msg("E", Buffer.from("S"), cstr("ERROR"), Buffer.from("V"), cstr("ERROR"), Buffer.from("C"), cstr(code), Buffer.from("M"), cstr(m), Buffer.from([0]));
    const rowDesc = (f: Field[]): Buffer => msg("T", i16(f.length), ...f.map((x) => Buffer.concat([cstr(x.name), i32(0), i16(0), i32(x.oid), i16(-1), i32(-1), i16(0)])));
    const rows = (a: { rows?: (string | null)[][] }): Buffer[] => (a.rows ?? []).map((r) => msg("D", i16(r.length), ...r.map((v) => { if (v === null) return i32(-1); const b = Buffer.from(v, "utf8"); return Buffer.concat([i32(b.length), b]); })));
    let failed = false; // extended protocol: skip until Sync
    sock.on("data", (d) => {
      buf = Buffer.concat([buf, d]);
      for (;;) {
        if (!started) {
          if (buf.length < 8) return;
          const len = buf.readInt32BE(0);
          if (buf.length < len) return;
          const code = buf.readInt32BE(4);
          const body = buf.subarray(8, len);
          buf = buf.subarray(len);
          if (code === 80877103) { sock.write("N"); continue; }
          const kv = body.toString("utf8").split("\0");
          for (let i = 0; i + 1 < kv.length; i += 2) { if (kv[i] === "user") c.user = kv[i + 1]; if (kv[i] === "database") c.database = kv[i + 1]; if (kv[i] === "application_name") c.app = kv[i + 1]; }
          started = true;
          push(async () => { send(msg("R", i32(3))); });
          continue;
        }
        if (buf.length < 5) return;
        const t = String.fromCharCode(buf[0]!);
        const len = buf.readInt32BE(1);
        if (buf.length < len + 1) return;
        const body = buf.subarray(5, len + 1);
        buf = buf.subarray(len + 1);
        let pos = 0;
        const rs = (): string => { const e = body.indexOf(0, pos); const s = body.toString("utf8", pos, e); pos = e + 1; return s; };
        const r16 = (): number => { const v = body.readInt16BE(pos); pos += 2; return v; };
        const r32 = (): number => { const v = body.readInt32BE(pos); pos += 4; return v; };
        if (t === "p") {
          c.password = rs();
          push(async () => {
            if (await this.hooks.accept(c)) send(msg("R", i32(0)), msg("S", cstr("server_version"), cstr("15.0")), msg("K", i32(c.id), i32(1)), msg("Z", Buffer.from("I")));
            else { send(err("too many connections", "53300")); sock.end(); }
          });
        } else if (t === "X") { c.terminated = true; sock.end(); }
        else if (t === "Q") {
          const sql = rs();
          push(async () => {
            const a = await this.hooks.query(c, sql, []);
            if ("drop" in a) { sock.destroy(); return; }
            if ("error" in a) { send(err(a.error, a.code), ready()); return; }
            send(...(a.fields ? [rowDesc(a.fields)] : []), ...rows(a), msg("C", cstr(a.tag)), ready());
          });
        } else if (t === "P") { const name = rs(); const sql = rs(); push(async () => { if (!failed) { stmts.set(name, sql); send(msg("1")); } }); }
        else if (t === "B") {
          const portal = rs(); const st = rs();
          const nf = r16(); for (let i = 0; i < nf; i++) r16();
          const np = r16(); const params: (string | null)[] = [];
          for (let i = 0; i < np; i++) { const l = r32(); if (l < 0) params.push(null); else { params.push(body.toString("utf8", pos, pos + l)); pos += l; } }
          push(async () => { if (!failed) { portals.set(portal, { sql: stmts.get(st) ?? "", params }); send(msg("2")); } });
        } else if (t === "D") { push(async () => {}); } // described together with execution
        else if (t === "E") {
          const portal = rs();
          push(async () => {
            if (failed) return;
            const p = portals.get(portal)!;
            const a = await this.hooks.query(c, p.sql, p.params);
            if ("drop" in a) { sock.destroy(); return; }
            if ("error" in a) { failed = true; send(err(a.error, a.code)); return; }
            send(a.fields ? rowDesc(a.fields) : msg("n"), ...rows(a), msg("C", cstr(a.tag)));
          });
        } else if (t === "S") push(async () => { failed = false; send(ready()); });
        else if (t === "C") push(async () => { send(msg("3")); });
        else if (t === "H") { /* flush */ }
      }
    });
  }
}
