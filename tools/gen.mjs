// Writes properties.jsonl and MANIFEST.json from tools/properties.mjs (run after editing it).
import fs from "node:fs";
import path from "node:path";
import { properties, notApplicable } from "./properties.mjs";
const V = path.resolve(import.meta.dirname, "..");
const out = [];
const checks = [];
for (const p of properties) {
  const { technique, level_note, ...prop } = p;
  out.push(JSON.stringify(prop));
  if (notApplicable.some((n) => n.property === p.id)) continue;
  if (!fs.existsSync(path.join(V, "checks", `${p.id}.mjs`))) { console.error("no check for", p.id); continue; }
  checks.push({ property: p.id, quick_cmd: `node bin/check.mjs ${p.id}`, thorough_cmd: `VERIF_TIER=thorough node bin/check.mjs ${p.id}`, technique, level: "model_checking", level_note });
  for (const f of p.anchors.files) if (!fs.existsSync(path.join("/repo", f))) console.error(p.id, "no such file", f);
  if (p.title.length > 80) console.error(p.id, "title too long");
}
fs.writeFileSync(path.join(V, "properties.jsonl"), `${out.join("\n")}\n`);
fs.writeFileSync(path.join(V, "MANIFEST.json"), `${JSON.stringify({
  version: 1, setup_cmd: "node bin/setup.mjs",
  checks, not_applicable: notApplicable,
  notes: "No hooks were needed in /repo: the code is bound at its module interfaces and at its outer boundaries (wire, SDK, clock, stdout).",
}, null, 1)}\n`);
// DESIGN.md from tools/design.md
const { design, missedFirst } = await import("./design.mjs");
const sections = properties.map((p) => {
  const d = design[p.id];
  if (!d) { console.error("no design of", p.id); return ""; }
  const suites = fs.existsSync(path.join(V, "checks", `${p.id}.mjs`)) ? "" : " (not built yet)";
  return `### ${p.id} ${p.title}${suites}

* Specified: ${d[0]}
* Bound and compared: ${d[1]}
* Over: ${p.quantifier.text}.
* Why tests do not settle it: ${p.why_tests_cant}
* Bounds and trust: ${p.level_note.replace(/^.*?specification\. /s, "")} Cost: ${d[2]}.
`;
}).join("\n");
const findings = JSON.parse(fs.readFileSync(path.join(V, "known-findings.json"))).map((f) => `* ${f.property} ${f.commit ?? ""} (${f.status}): ${f.what.replace(/^(fixed|open|finding): property=\S+ (\S{7} )?/, "")}`).join("\n");
const seeded = ["| bug | caught by | needs | note |", "|---|---|---|---|", ...fs.readdirSync(path.join(V, "seeded")).sort().map((id) => {
  const m = JSON.parse(fs.readFileSync(path.join(V, "seeded", id, "meta.json")));
  return `| ${id} | ${m.property} | ${m.needs} | ${missedFirst[id] ?? ""} |`;
})].join("\n");
fs.writeFileSync(path.join(V, "DESIGN.md"), fs.readFileSync(path.join(V, "tools/design.md"), "utf8").replace("@@PROPERTIES@@", () => `## Properties\n\n${sections}`).replace("@@FINDINGS@@", () => findings).replace("@@SEEDED@@", () => seeded));
console.log(checks.length, "checks");
