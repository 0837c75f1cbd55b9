const cfg = (o) => `SPECIFICATION Spec
CONSTANTS Modes = ${o.modes}
Keys = ${o.keys ?? '{"-"}'}
Paths = ${o.paths ?? '{"/prod/things?a=1&b=2"}'}
Queries <- ${o.queries ?? "NoSet"}
Holders = ${o.holders ?? '{"proxy", "rds"}'}
Checks <- ${o.checks ?? "NoSet"}
Answers <- ${o.answers ?? "NoSet"}
Counts <- ${o.counts ?? "NoSet"}
DbChecks = ${o.dbchecks ?? "{}"}
DbTimings = ${o.timings ?? "{}"}
Builds <- ${o.builds ?? "NoSet"}
Steps = ${o.steps}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "CanaryMC", driver: "canary.ts", bundle: { stubs: { Synthetics: "synthetics.ts", vitest: "vitest.ts", "@aws-sdk/client-api-gateway": "api-gateway-client.ts", "@aws-sdk/client-secrets-manager": "secrets-manager.ts" } } };
export default {
  id: "C11",
  assumptions: ["the runtime of AWS Synthetics is replaced: it runs the steps and hands over the answers of the watched service, in pieces; PostgreSQL is replaced at its wire protocol, the secret store at its SDK client"],
  suites: [
    { ...base, name: "single", ops: ["check"], cfg: cfg({ modes: '{"url"}', keys: '{"the-key"}', checks: "SingleChecks", answers: "AllAnswers", steps: 1 }) },
    { ...base, name: "pairs", ops: ["check"], cfg: cfg({ modes: '{"url"}', keys: '{"-"}', checks: "PairChecks", answers: "PairAnswers", steps: 1 }) },
    { ...base, name: "runs", ops: ["check"], cfg: { quick: cfg({ modes: '{"url"}', keys: '{"-", "the-key"}', checks: "RunChecks", answers: "RunAnswers", steps: 3 }), thorough: cfg({ modes: '{"url"}', keys: '{"-", "the-key"}', checks: "RunChecks", answers: "RunAnswers", steps: 6 }) } },
    { ...base, name: "created", ops: ["check"], cfg: cfg({ modes: '{"created"}', keys: '{"value of k1", "value of k2"}', paths: '{"/prod/things", "/prod/things?a=1&auth=TOK3N", "/x?auth=tok3n&auth=tok3n&b=1"}', checks: "RunChecks", answers: "RunAnswers", steps: 1 }) },
    { ...base, name: "longer", ops: ["expect", "run", "query"], cfg: cfg({ modes: '{"db"}', counts: "FewCounts", queries: "Q", holders: '{"rds"}', dbchecks: '{"zero", "one", "one or more"}', timings: '{"now"}', steps: 3 }) },
    { ...base, name: "database", ops: ["expect", "run"], cfg: { quick: cfg({ modes: '{"db"}', counts: "AnyCounts", dbchecks: '{"zero", "one", "one or more"}', timings: '{"now", "later"}', steps: 2 }), thorough: cfg({ modes: '{"db"}', counts: "AnyCounts", dbchecks: '{"zero", "one", "one or more"}', timings: '{"now", "later"}', steps: 3 }) } },
    { ...base, name: "deployed", ops: ["deploy"], cfg: cfg({ modes: '{"infra"}', builds: "AllBuilds", steps: 1 }) },
  ],
};
