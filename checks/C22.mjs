const cfg = (use, steps) => `SPECIFICATION Spec
CONSTANTS Timetable <- Table
Batches <- ${use.Batches}
Faults <- ${use.Faults ?? "NoFault"}
Tables <- ${use.Tables ?? "None"}
Waits <- ${use.Waits ?? "None"}
Steps = ${steps}
VIEW View
INVARIANT Safe
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "TrackNewsMC", driver: "tracknews.ts" };
export default {
  id: "C22",
  bundle: { esm: true, stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@aws-sdk/client-sqs": "sqs.ts", "@aws-sdk/client-s3": "s3.ts", "@middy/core": "middy-parts.ts", "@middy/sqs-partial-batch-failure": "middy-partial.ts", "mysql2/promise.js": "mysql2.ts", "mysql2/promise": "mysql2.ts" } },
  assumptions: [
    "MySQL is stood in for by SQLite: the statements are the real ones, translated; the tables are laid out by the harness, as the repository has no migration for them",
    "middy's middleware for batches and SQS are stood in for; what stop monitoring sends to the queue, the harness passes on to the next handler",
    "entries of the history that repeat the one before are not told apart from it, as whether they arise depends on a flag of the MySQL client",
  ],
  suites: [
    { ...base, name: "said", ops: ["come"], cfg: cfg({ Batches: "Singles" }, 1) },
    { ...base, name: "batches", ops: ["come"], cfg: { quick: cfg({ Batches: "Many" }, 2), thorough: cfg({ Batches: "Many" }, 3) } },
    { ...base, name: "words", ops: ["come"], cfg: { quick: cfg({ Batches: "Words1" }, 3), thorough: cfg({ Batches: "Words1" }, 4) } },
    { ...base, name: "timetables", ops: ["come", "table"], cfg: { quick: cfg({ Batches: "HkiOnes", Tables: "Turns" }, 4), thorough: cfg({ Batches: "Words1", Tables: "Turns" }, 5) } },
    { ...base, name: "faults", ops: ["come"], cfg: { quick: cfg({ Batches: "Struck", Faults: "AllFaults" }, 2), thorough: cfg({ Batches: "Struck", Faults: "AllFaults" }, 3) } },
    { ...base, name: "ages", ops: ["come", "wait", "clean"], cfg: { quick: cfg({ Batches: "Aging", Waits: "Ages", Faults: "CleanFaults" }, 4), thorough: cfg({ Batches: "Aging", Waits: "Ages", Faults: "CleanFaults" }, 5) } },
  ],
};
