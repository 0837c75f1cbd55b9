const cfg = (clients, configs, errors, calls) => `SPECIFICATION Spec
CONSTANTS Clients = ${clients}
Configs <- ${configs}
Errors = ${errors}
MaxCalls = ${calls}
VIEW View
INVARIANT Invariants
PROPERTY FinishedStays OneAtATime
CONSTRAINT FewAttempts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const ops = ["call", "succeed", "fail", "late", "tick"];
const base = { module: "RetryMC", driver: "retry.ts", kind: "replay", ops };
export default {
  id: "C01",
  assumptions: ["timers, the clock and stdout are replaced by fakes that fire in due order; promise reactions run to completion between steps"],
  suites: [
    { ...base, name: "single", cfg: { quick: cfg('{"a"}', "OneConfigs", '{"http403", "http500", "string"}', 1), thorough: cfg('{"a"}', "OneConfigs", '{"http403", "http429", "http500", "error", "string"}', 1) } },
    { ...base, name: "status", ops: ["call", "fail"], cfg: cfg('{"a"}', "StatusConfigs", '{"http200", "http400", "http401", "http403", "http404", "http408", "http429", "http430", "http500", "http502", "http503", "http504", "sub429", "sub503", "like403", "like429"}', 1).replace("FewAttempts", "TwoAttempts") },
    { ...base, name: "long", cfg: { quick: cfg('{"a"}', "LongConfigs", '{"http429", "error"}', 1), thorough: cfg('{"a"}', "LongConfigs", '{"http403", "http429", "error"}', 1) } },
    { ...base, name: "interleaved", cfg: { quick: cfg('{"a", "b"}', "TwoConfigs", '{"http403", "error"}', 1), thorough: cfg('{"a", "b"}', "TwoConfigsDeep", '{"http429", "error"}', 1) } },
    { kind: "model", name: "liveness", module: "RetryMC", cfg: `SPECIFICATION Spec
CONSTANTS Clients = {"a"}
Configs <- TwoConfigsDeep
Errors = {"http403", "error"}
MaxCalls = 1
PROPERTY Terminates
CHECK_DEADLOCK FALSE
` },
    { kind: "trace", name: "random", module: "RetryTrace", driver: "retry.ts", params: { quick: { n: 150, len: 60 }, thorough: { n: 2500, len: 120 } },
      corrupt: (t, rng) => { const i = Math.floor(rng() * t.ev.length); const e = t.ev[i]; if (!e.o.c.a || e.a.c !== "a") return undefined; e.o.c.a.attempts += 1; return t; },
      cfg: `SPECIFICATION TSpec
CONSTANTS Clients = {"a", "b", "c"}
Configs = {}
Errors = {}
MaxCalls = 1000
INVARIANT Invariants
` },
  ],
};
