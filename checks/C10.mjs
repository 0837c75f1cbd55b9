const cfg = (mode, makers, ips, paths, keys) => `SPECIFICATION Spec
CONSTANTS Mode = "${mode}"
Makers = ${makers}
IpSettings = ${ips}
MaxPaths = ${paths}
MaxKeys = ${keys}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "RestApi", driver: "restapi.ts" };
export default {
  id: "C10",
  assumptions: ["resource policies, usage plans, gateway responses and preflight methods are evaluated by the harness as API gateway documents them"],
  suites: [
    { ...base, name: "gate", ops: ["resource", "plan", "probe"], cfg: { quick: cfg("gate", '{"class", "configured", "function"}', '{"all", "two", "many", "none"}', 2, 1), thorough: cfg("gate", '{"class", "configured", "function"}', '{"all", "two", "many", "none"}', 4, 2) } },
    { ...base, name: "docs", ops: ["resource", "document", "model", "unauthorized", "missing"], cfg: { quick: cfg("docs", '{"class"}', '{"all"}', 2, 0), thorough: cfg("docs", '{"class"}', '{"all"}', 3, 0) } },
    { ...base, name: "export", ops: ["plan", "export"], cfg: cfg("export", '{"class"}', '{"all"}', 0, 2) },
  ],
};
