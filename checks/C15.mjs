const NONE = { Schedules: "Nothing", Findings: "Nothing", Grants: "Nothing", Subscriptions: "Nothing", Plans: "Nothing", Groups: "Nothing", Docs: "Nothing" };
const cfg = (modes, steps, o) => `SPECIFICATION Spec
CONSTANTS Modes = ${modes}
${Object.entries({ ...NONE, ...o }).map(([k, v]) => `${k} <- ${v}`).join("\n")}
Steps = ${steps}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "WiringMC", driver: "wiring.ts" };
export default {
  id: "C15",
  assumptions: ["policies and event patterns of the synthesised templates are evaluated by the harness as AWS documents it (an explicit denial wins; a pattern matches when every field does)"],
  suites: [
    { ...base, name: "schedules", ops: ["schedule"], cfg: { quick: cfg('{"schedule"}', 2, { Schedules: "SomeSchedules" }), thorough: cfg('{"schedule"}', 3, { Schedules: "SomeSchedules" }) } },
    { ...base, name: "findings", ops: ["finding"], cfg: cfg('{"findings"}', 1, { Findings: "SomeFindings" }) },
    { ...base, name: "grants", ops: ["grant"], cfg: { quick: cfg('{"grant"}', 1, { Grants: "SomeGrants" }), thorough: cfg('{"grant"}', 2, { Grants: "SomeGrants" }) } },
    { ...base, name: "grants-together", adapter: "grants", ops: ["grant"], cfg: cfg('{"grant"}', 2, { Grants: "PairGrants" }) },
    { ...base, name: "logs", ops: ["subscribe"], cfg: cfg('{"subscribe"}', 2, { Subscriptions: "SomeSubs" }) },
    { ...base, name: "plans", ops: ["plan"], cfg: cfg('{"plan"}', 3, { Plans: "SomePlans" }) },
    { ...base, name: "documents", ops: ["group", "document"], cfg: { quick: cfg('{"group", "document"}', 2, { Groups: "SomeGroups", Docs: "SomeDocs" }), thorough: cfg('{"group", "document"}', 3, { Groups: "SomeGroups", Docs: "SomeDocs" }) } },
  ],
};
