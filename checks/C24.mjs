const cfg = (goes, steps, starts = "Normal", maps = "None", sources = "None") => `SPECIFICATION Spec
CONSTANTS
Goes <- ${goes}
Maps <- ${maps}
Sources <- ${sources}
Starts <- ${starts}
Steps = ${steps}
VIEW View
INVARIANT Safe
PROPERTY Final
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "WorkTrailsMC", driver: "worktrails.ts", ops: ["go"] };
export default {
  id: "C24",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts" } },
  assumptions: [
    "PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation, the functions of PostGIS by simple ones that keep every point; the tables are laid out by the harness, and transactions run one after another",
    "the source of the data is stood in for at fetch",
  ],
  suites: [
    { ...base, name: "pairs", cfg: cfg("Pairs", 1) },
    { ...base, name: "joins", cfg: { quick: cfg("JoinsQ", 2), thorough: cfg("Joins", 2) } },
    { ...base, name: "chain", cfg: { quick: cfg("Chain", 3), thorough: cfg("Chain", 5) } },
    { ...base, name: "many", cfg: { quick: cfg("Many", 1), thorough: cfg("Many", 2) } },
    { ...base, name: "machines", cfg: { quick: cfg("Both", 2), thorough: cfg("Both", 3) } },
    { ...base, name: "windows", cfg: { quick: cfg("Windows", 2), thorough: cfg("Windows", 3) } },
    { ...base, name: "faults", cfg: { quick: cfg("Struck", 2), thorough: cfg("Struck", 3) } },
    { ...base, name: "named", cfg: { quick: cfg("Named", 2, "AllStarts"), thorough: cfg("Named", 3, "AllStarts") } },
    { ...base, name: "mapped", ops: ["go", "map", "source"], cfg: { quick: cfg("Told", 3, "AllStarts", "Changes", "Both2"), thorough: cfg("Told", 4, "AllStarts", "Changes", "Both2") } },
  ],
};
