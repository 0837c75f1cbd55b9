const cfg = (use, steps) => `SPECIFICATION Spec
CONSTANTS
${["Posts", "Takes", "Letters", "Cleans", "Waits"].map((k) => `${k} <- ${use[k] ?? "None"}`).join("\n")}
Starts <- ${use.Starts ?? "NoTracks"}
Steps = ${steps}
VIEW View
INVARIANT Safe
PROPERTIES Stay Young Newest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "RoadWorksMC", driver: "roadworks.ts" };
export default {
  id: "C23",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@aws-sdk/client-s3": "s3.ts", "sqs-extended-client": "sqs-extended.ts" } },
  assumptions: [
    "PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness, and transactions run one after another",
    "the client that passes big messages through a bucket is stood in for, at its interface",
  ],
  suites: [
    { ...base, name: "one", ops: ["post", "take"], cfg: { quick: cfg({ Posts: "OnePosts", Takes: "One" }, 2), thorough: cfg({ Posts: "OnePosts", Takes: "AllTakes" }, 3) } },
    { ...base, name: "again", ops: ["post", "take"], cfg: { quick: cfg({ Posts: "AgainPosts", Takes: "One" }, 4), thorough: cfg({ Posts: "AgainPosts", Takes: "One" }, 6) } },
    { ...base, name: "many", ops: ["post", "take"], cfg: { quick: cfg({ Posts: "ManyPosts", Takes: "Two" }, 4), thorough: cfg({ Posts: "ManyPosts", Takes: "Two" }, 5) } },
    { ...base, name: "faults", ops: ["post", "take"], cfg: { quick: cfg({ Posts: "FaultPosts", Takes: "FaultTakes" }, 3), thorough: cfg({ Posts: "FaultPosts", Takes: "FaultTakes" }, 5) } },
    { ...base, name: "letters", ops: ["letter"], cfg: { quick: cfg({ Letters: "Piles", Waits: "Minute" }, 3), thorough: cfg({ Letters: "Piles", Waits: "Minute" }, 5) } },
    { ...base, name: "clean", allowUnhandled: true, ops: ["clean"], cfg: cfg({ Cleans: "AllSweeps", Starts: "AllTracks" }, 2) },
    { ...base, name: "ages", allowUnhandled: true, ops: ["clean", "wait"], cfg: { quick: cfg({ Cleans: "Sweep", Waits: "Hours", Starts: "FewTracks" }, 4), thorough: cfg({ Cleans: "AllSweeps", Waits: "Hours", Starts: "FewTracks" }, 6) } },
  ],
};
