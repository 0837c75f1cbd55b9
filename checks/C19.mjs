const cfg = (part, kinds, asks, steps, all = "", batches = "Batches", runs = "Runs") => `SPECIFICATION Spec
CONSTANTS Values <- ${kinds}Values
Part = "${part}"
Batches <- ${kinds}${batches}
Runs <- ${runs === "Runs" ? kinds : ""}${runs}${all}
First <- ${kinds}All
Asks <- ${asks}
Steps = ${steps}
VIEW View
INVARIANT Invariants
PROPERTY Recovers
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", shards: 3, module: "WinterNavMC", driver: "winternav.ts" };
const NO = -999, WEEK = 7 * 1440;
const K = (id, from, to) => ({ id, from, to });
const cross = (id, fs, ts) => fs.flatMap((f) => ts.map((t) => K(id, f, t)));
// the same as VesselAsks in the specification: an answer that is missing or too many is a difference
const vesselAsksAll = [
  ...[0, 1000001, 230000001, 230000011, 2000002, 230000002, 230000003, 230000004, 6000006, 7000007, 5, 9999999].map((id) => K(id, NO, NO)),
  ...cross(0, [NO, -WEEK - 400, -100, -99, 60, 61, 200], [NO, 100, 99, 30]).filter((a) => !(a.from === NO && a.to === NO)),
  K(0, 200, 499), K(0, 200, 500), K(0, 201, 600), K(0, 500, NO),
  ...cross(2000002, [NO, -100, 31, 61], [NO, -31, -30, 99]).filter((a) => !(a.from === NO && a.to === NO)),
  K(230000003, 91, NO), K(230000003, 90, 499), K(230000003, NO, 29), K(230000004, 90, 500),
];
const vesselAsks = [
  ...[0, 1000001, 230000001, 230000011, 2000002, 230000003, 230000004, 6000006, 7000007, 9999999].map((id) => K(id, NO, NO)),
  K(0, -100, NO), K(0, -99, NO), K(0, 60, NO), K(0, 61, NO), K(0, -WEEK - 400, 99), K(0, 200, 499), K(0, NO, 30), K(2000002, 31, 99), K(2000002, NO, -31), K(2000002, -100, -30), K(0, 20, 20), K(0, 40, 40), K(6000006, 20, 20), K(6000006, 40, 40), K(7000007, 20, 20), K(7000007, 40, 40), K(6000006, 41, 41), K(7000007, 19, 19), K(0, 500, 500), K(0, 300, 300), K(230000003, 500, 500), K(230000003, 300, 300), K(230000004, 500, 500), K(230000004, 300, 300), K(230000003, 501, 600), K(230000003, 301, 499),
];
const LOCODES = ["FIHEL", "FIVUO", "FIHMN", "FIKTK", "FIH", "FIXXX"];
export default {
  id: "C19",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts" } },
  assumptions: ["PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness", "the source of the data is stood in for at fetch"],
  suites: [
    { ...base, name: "locations", ops: ["change", "run"], params: { asks: LOCODES }, cfg: { quick: cfg("locations", "Location", "LocationAsks", 5), thorough: cfg("locations", "Location", "LocationAsks", 6, "All") } },
    { ...base, name: "vessels", ops: ["change", "run"], params: { quick: { asks: vesselAsks }, thorough: { asks: vesselAsksAll } }, cfg: { quick: cfg("vessels", "Vessel", "VesselAsks", 5), thorough: cfg("vessels", "Vessel", "VesselAsksAll", 6, "All") } },
    { ...base, name: "dirways", ops: ["change", "run"], cfg: { quick: cfg("dirways", "Dirway", "NoAsks", 5), thorough: cfg("dirways", "Dirway", "NoAsks", 6, "All") } },
    ...[["locations", "Location", "LocationAsks"], ["vessels", "Vessel", "VesselAsks"], ["dirways", "Dirway", "NoAsks"]].map(([part, kinds, asks]) =>
      ({ ...base, name: `${part}-back`, ops: ["change", "run"], params: { asks: part === "locations" ? LOCODES : vesselAsks }, cfg: { quick: cfg(part, kinds, asks, 6, "", "Backs", "GoodRuns"), thorough: cfg(part, kinds, asks, 7, "", "Backs", "GoodRuns") } })),
  ],
};
