// Checks that the toolchain is there and that every specification parses.
import { spawnSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
const V = path.resolve(import.meta.dirname, "..");
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "verif-setup-"));
for (const f of fs.readdirSync(path.join(V, "spec"))) fs.copyFileSync(path.join(V, "spec", f), path.join(tmp, f));
const mods = fs.readdirSync(tmp).filter((f) => f.endsWith(".tla"));
const r = spawnSync("java", ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", ...mods], { cwd: tmp, encoding: "utf8" });
fs.rmSync(tmp, { recursive: true, force: true });
if (r.status !== 0 || /\*\*\* Errors|Fatal errors/.test(r.stdout)) { console.error(r.stdout, r.stderr); process.exit(1); }
fs.mkdirSync(path.join(V, "evidence", "replay"), { recursive: true });
console.log(`${mods.length} specification modules parse`);
