const cfg = (inits, batches, queries, ticks, purges, steps, inv = "Invariants") => `SPECIFICATION Spec
CONSTANTS Inits <- ${inits}
Batches <- ${batches}
Queries <- ${queries}
Ticks <- ${ticks}
Purges = ${purges}
Steps = ${steps}
VIEW View
INVARIANT ${inv}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "PortTimesMC", driver: "porttimes.ts" };
export default {
  id: "C17",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@middy/core": "middy.ts", "@middy/sqs-partial-batch-failure": "empty.ts" } },
  assumptions: ["PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness after the migrations", "the middleware that answers SQS is replaced: the outcomes of the handler are judged"],
  suites: [
    { ...base, name: "serve", ops: ["ask"], cfg: { quick: cfg("ServeInits", "NoBatches", "AllQueries", "NoTicks", "FALSE", 0), thorough: cfg("ServeInits3", "NoBatches", "AllQueries", "NoTicks", "FALSE", 0) } },
    { ...base, name: "merge", ops: ["ask", "list"], cfg: { quick: cfg("MergeInits", "NoBatches", "MergeQueries", "NoTicks", "FALSE", 0), thorough: cfg("MergeInits2", "NoBatches", "MergeQueries", "NoTicks", "FALSE", 0) } },
    { ...base, name: "doubles", ops: ["ask", "list"], cfg: cfg("DoubleInits", "NoBatches", "DoubleQueries", "NoTicks", "FALSE", 0) },
    { ...base, name: "lists", ops: ["list"], cfg: cfg("ListInits", "NoBatches", "ListQueries", "NoTicks", "FALSE", 0) },
    { ...base, name: "page", ops: ["page"], cfg: cfg("PageInits", "NoBatches", "PageQueries", "NoTicks", "FALSE", 0) },
    { ...base, name: "etaships", ops: ["etaships"], cfg: { quick: cfg("EtaInits", "NoBatches", "EtaQueries", "NoTicks", "FALSE", 0), thorough: cfg("EtaInits3", "NoBatches", "EtaQueries", "NoTicks", "FALSE", 0) } },
  ],
};
