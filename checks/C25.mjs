const cfg = (sights, goes, waits, steps) => `SPECIFICATION Spec
CONSTANTS
Areas <- TheAreas
Ships <- TheShips
Sights <- ${sights}
Goes <- ${goes}
Waits <- ${waits}
Steps = ${steps}
VIEW View
INVARIANT Safe
PROPERTY Sparing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "FairwaysMC", driver: "fairways.ts" };
const ops = ["see", "wait", "go"];
export default {
  id: "C25",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts" } },
  assumptions: [
    "PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation, the functions of PostGIS by simple ones for polygons; the tables are laid out by the harness",
    "the source of the visibility and the control of the lights are stood in for at fetch; waits between attempts are passed over",
  ],
  suites: [
    { ...base, name: "places", ops: ["see", "go"], cfg: cfg("Anywhere", "Plain", "NoWaits", 2) },
    { ...base, name: "ships", ops: ["see", "go"], cfg: { quick: cfg("Pairs", "Plain", "NoWaits", 4), thorough: cfg("PairsT", "Plain", "NoWaits", 4) } },
    { ...base, name: "ages", ops, cfg: { quick: cfg("One", "Plain", "Ages", 5), thorough: cfg("Both", "Plain", "Ages", 6) } },
    { ...base, name: "watch", ops, cfg: { quick: cfg("Stay", "Plain", "Near", 5), thorough: cfg("Stay", "Plain", "Near", 7) } },
    { ...base, name: "views", ops: ["see", "go"], cfg: cfg("Both", "Views", "NoWaits", 3) },
    { ...base, name: "failing", ops, cfg: { quick: cfg("Both", "Failing", "Minutes", 4), thorough: cfg("Both", "Failing", "Minutes", 5) } },
    { ...base, name: "faults", ops, cfg: { quick: cfg("Both", "Struck", "Minutes", 5), thorough: cfg("Both", "Struck", "Minutes", 6) } },
  ],
};
