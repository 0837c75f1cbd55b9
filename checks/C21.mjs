const cfg = (starts, use, steps) => `SPECIFICATION Spec
CONSTANTS Starts <- ${starts}
${["Batches", "Uploads", "Letters", "Queries", "Afters", "Waits"].map((k) => `${k} <- ${use[k] ?? "None"}`).join("\n")}
Faults <- ${use.Faults ?? "NoFault"}
Steps = ${steps}
VIEW View
INVARIANT Safe
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "RailMessagesMC", driver: "railmessages.ts" };
export default {
  id: "C21",
  bundle: { esm: true, stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@aws-sdk/client-sqs": "sqs.ts", "@aws-sdk/client-s3": "s3.ts", "@middy/core": "middy-parts.ts", "@middy/sqs-partial-batch-failure": "middy-partial.ts", ajv: "ajv.ts", "ajv-formats": "ajv-formats.ts", "mysql2/promise.js": "mysql2.ts", "mysql2/promise": "mysql2.ts" } },
  assumptions: [
    "MySQL is stood in for by SQLite: the statements are the real ones, translated (placeholders, bit strings, EXPORT_SET, DATE_FORMAT, REVERSE, NOW); the tables are laid out by the harness, as the repository has no migration for them; transactions run one at a time",
    "ajv is stood in for by a small validator of the schema, middy's middleware for batches by one that reports what was rejected, SQS and S3 by recorders",
  ],
  suites: [
    { ...base, name: "intake", ops: ["upload", "bury"], cfg: cfg("Nothing", { Uploads: "AllUploads", Letters: "AllLetters" }, 1) },
    { ...base, name: "versions", ops: ["process", "wait"], cfg: { quick: cfg("Nothing", { Batches: "SomeOnes", Waits: "SomeWaits" }, 3), thorough: cfg("Nothing", { Batches: "Ones", Waits: "SomeWaits" }, 4) } },
    { ...base, name: "faults", ops: ["process"], cfg: { quick: cfg("BeforeFault", { Batches: "Ones", Faults: "AllFaults" }, 1), thorough: cfg("BeforeFault", { Batches: "Ones", Faults: "AllFaults" }, 2) } },
    { ...base, name: "batches", ops: ["process"], cfg: { quick: cfg("BeforeFault", { Batches: "Twos", Faults: "WithLetters" }, 1), thorough: cfg("BeforeFault", { Batches: "Twos", Faults: "AllFaults" }, 2) } },
    { ...base, name: "parts", ops: ["process"], cfg: cfg("Nothing", { Batches: "Parts" }, 1) },
    { ...base, name: "asked", ops: ["ask"], cfg: cfg("Board", { Queries: "AllQueries", Faults: "QueryFaults" }, 1) },
    { ...base, name: "since", ops: ["since"], cfg: cfg("Board", { Afters: "AllAfters", Faults: "QueryFaults" }, 1) },
  ],
};
