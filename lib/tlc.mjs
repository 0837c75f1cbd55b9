// Runs TLC on a module of /verif/spec in a private scratch directory and parses what it printed.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";

export const VERIF = path.resolve(import.meta.dirname, "..");
export const SPEC = path.join(VERIF, "spec");

/**
 * @param o {module, cfg: string (text), dir: scratch dir, workers?, timeoutS?, files?: {name:text}, args?: string[], onLine?}
 * @returns {ok, error?, errorKind?, states, generated, depth, emitted: any[], coverage, lastState}
 */
export async function runTlc(o) {
  const dir = path.join(o.dir, `tlc-${o.module}-${o.name ?? "m"}`);
  fs.mkdirSync(dir, { recursive: true });
  for (const f of fs.readdirSync(SPEC)) {
    if (f.endsWith(".tla")) fs.copyFileSync(path.join(SPEC, f), path.join(dir, f));
  }
  for (const [n, t] of Object.entries(o.files ?? {})) fs.writeFileSync(path.join(dir, n), t);
  const cfg = `${o.module}.run.cfg`;
  fs.writeFileSync(path.join(dir, cfg), o.cfg);
  const args = [
    `-Xmx${o.heapMb ?? 4000}m`, "-Xss64m", "-XX:+UseParallelGC",
    ...(o.jvm ?? []),
    "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
    "tlc2.TLC", "-config", cfg, "-workers", String(o.workers ?? 1), "-metadir", path.join(dir, "meta"),
    "-noGenerateSpecTE", "-lncheck", "final",
    ...(o.args ?? []),
    `${o.module}.tla`,
  ];
  const t0 = Date.now();
  const res = { ok: false, emitted: [], raw: [], states: 0, generated: 0, depth: 0, actions: {} };
  await new Promise((resolve) => {
    const p = spawn("java", args, { cwd: dir, stdio: ["ignore", "pipe", "pipe"] });
    const timer = setTimeout(() => { res.error = "TLC timed out"; res.errorKind = "timeout"; p.kill("SIGKILL"); }, (o.timeoutS ?? 600) * 1000);
    const rl = readline.createInterface({ input: p.stdout });
    rl.on("line", (line) => {
      if (line.startsWith('"@@')) {
        const v = JSON.parse(JSON.parse(line).slice(2));
        if (o.onEmit) o.onEmit(v); else res.emitted.push(v);
        return;
      }
      res.raw.push(line);
      let m;
      if ((m = line.match(/^(\d+) states generated, (\d+) distinct states found/))) { res.generated = +m[1]; res.states = +m[2]; }
      if ((m = line.match(/depth of the complete state graph search is (\d+)/))) res.depth = +m[1];
      if (line.includes("Model checking completed. No error has been found")) res.ok = true;
      if ((m = line.match(/^<(\w+) line .*>: (\d+):(\d+)/))) res.actions[m[1]] = (res.actions[m[1]] ?? 0) + +m[3];
    });
    let err = "";
    p.stderr.on("data", (d) => (err += d));
    p.on("close", (code) => {
      clearTimeout(timer);
      res.code = code;
      if (!res.ok && !res.error) {
        const i = res.raw.findIndex((l) => l.startsWith("Error:"));
        res.error = (i >= 0 ? res.raw.slice(i, i + 60) : res.raw.slice(-30)).join("\n") + (err ? `\n${err}` : "");
        res.errorKind = /Deadlock reached/.test(res.error) ? "deadlock"
          : /Invariant .* is violated/.test(res.error) ? "invariant"
          : /property .* is violated|properties were violated/i.test(res.error) ? "property" : "error";
      }
      resolve();
    });
  });
  res.wall = (Date.now() - t0) / 1000;
  return res;
}
