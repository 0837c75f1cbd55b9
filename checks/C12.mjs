const cfg = (mode, o) => `SPECIFICATION Spec
CONSTANTS Modes = {"${mode}"}
Configs <- ${o.configs ?? "SomeConfigs"}
Lines <- ${o.lines ?? "LinesQuick"}
Debugs <- AllDebugs
Exceptions <- AllExceptions
Leads <- AllLeads
Texts <- AllTexts
Handlers = ${o.handlers ?? 2}
Settings <- AllSettings
Durations = ${o.durations ?? "{1, 4}"}
MaxRuns = ${o.runs ?? 2}
VIEW View
INVARIANT Invariants
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "LoggingMC", driver: "logging.ts" };
const sw = (tasks, ds, max, periods = 2) => `SPECIFICATION Spec
CONSTANTS MaxPeriods = ${periods}
Tasks = ${tasks}
Durations = ${ds}
MaxTime = ${max}
VIEW View
INVARIANT Invariants
PROPERTY OnlyGrows
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
export default {
  id: "C12",
  assumptions: ["standard output and the clock are replaced by recording stand-ins"],
  suites: [
    { ...base, name: "lines", ops: ["log"], cfg: { quick: cfg("lines", {}), thorough: cfg("lines", { lines: "LinesDeep", configs: "AllConfigs" }) } },
    { ...base, name: "errors", ops: ["exception", "debug"], cfg: cfg("errors", { configs: "AllConfigs" }) },
    { ...base, name: "leads", ops: ["lead"], cfg: cfg("leads", {}) },
    { ...base, name: "texts", ops: ["truncate"], cfg: cfg("texts", {}) },
    { ...base, name: "handlers", ops: ["set", "create", "begin", "wait", "finish"], cfg: { quick: cfg("handlers", {}), thorough: cfg("handlers", { runs: 3, durations: "{1, 3, 4}" }) } },
    { kind: "replay", module: "StopWatch", driver: "logging.ts", name: "stopwatch", ops: ["start", "stop", "reset", "resetall", "wait", "log", "started"], cfg: { quick: sw('{"", "a"}', "{2}", 4), thorough: sw('{"", "a"}', "{1, 2}", 4) } },
    { kind: "replay", module: "StopWatch", driver: "logging.ts", name: "periods", ops: ["start", "stop", "wait"], cfg: { quick: sw('{"a"}', "{1}", 4, 4), thorough: sw('{""}', "{1, 2}", 6, 5) } },
  ],
};
