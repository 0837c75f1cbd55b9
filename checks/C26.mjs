const cfg = (use, steps) => `SPECIFICATION Spec
CONSTANTS
Starts <- ${use.Starts ?? "Nothing"}
Tells <- ${use.Tells ?? "NoTells"}
Faults <- ${use.Faults ?? "NoFault"}
Asks <- ${use.Asks ?? "NoAsks"}
Waits <- ${use.Waits ?? "NoWaits"}
Steps = ${steps}
VIEW View
INVARIANT Safe
PROPERTY Lasting
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "VisitsMC", driver: "visits.ts" };
export default {
  id: "C26",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", undici: "undici.ts" } },
  assumptions: [
    "PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness",
    "the source is stood in for at the interface of its HTTP client, and tells for two times the visits that are to arrive between them",
  ],
  suites: [
    { ...base, name: "taken", ops: ["tell", "update", "ask"], cfg: { quick: cfg({ Tells: "VersionsQ", Asks: "Few" }, 4), thorough: cfg({ Tells: "Versions", Asks: "Few" }, 5) } },
    { ...base, name: "versions", ops: ["tell", "update"], cfg: cfg({ Starts: "Kept", Tells: "Every" }, 2) },
    { ...base, name: "days", ops: ["tell", "update", "wait"], cfg: { quick: cfg({ Tells: "Edges", Waits: "HalfDays" }, 3), thorough: cfg({ Tells: "Edges", Waits: "HalfDays" }, 4) } },
    { ...base, name: "faults", ops: ["tell", "update"], cfg: { quick: cfg({ Tells: "Three", Faults: "StrikesQ" }, 4), thorough: cfg({ Tells: "Three", Faults: "Strikes" }, 5) } },
    { ...base, name: "asked", ops: ["ask", "wait"], cfg: cfg({ Starts: "Fleet", Faults: "NoFaults", Asks: "Questions", Waits: "Long" }, 2) },
  ],
};
