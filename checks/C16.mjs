const cfg = (inits, batches, queries, ticks, purges, steps, inv = "Invariants") => `SPECIFICATION Spec
CONSTANTS Inits <- ${inits}
Batches <- ${batches}
Queries <- ${queries}
Ticks <- ${ticks}
Purges = ${purges}
Steps = ${steps}
VIEW View
INVARIANT ${inv}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "PortTimesMC", driver: "porttimes.ts" };
export default {
  id: "C16",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@middy/core": "middy.ts", "@middy/sqs-partial-batch-failure": "empty.ts" } },
  assumptions: ["PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness after the migrations", "the middleware that answers SQS is replaced: the outcomes of the handler are judged"],
  suites: [
    { ...base, name: "judge", ops: ["deliver"], cfg: cfg("JudgeInits", "JudgedBatches", "NoQueries", "NoTicks", "FALSE", 1) },
    { ...base, name: "find", ops: ["deliver"], cfg: cfg("FindInits", "Found", "NoQueries", "NoTicks", "FALSE", 1) },
    { ...base, name: "history", ops: ["deliver", "ask", "tick", "purge"], cfg: { quick: cfg("HistoryInits", "HistoryBatches", "Few", "HistoryTicks", "TRUE", 3, "Invariants OnePort"), thorough: cfg("HistoryInits", "HistoryBatches", "Few", "HistoryTicks", "TRUE", 4, "Invariants OnePort") } },
  ],
};
