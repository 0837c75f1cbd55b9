const set = (...x) => `{${x.map((s) => `"${s}"`).join(", ")}}`;
const cfg = (stacks, makers, steps, max, readings, maxR, names = "NoNames") => `SPECIFICATION Spec
CONSTANTS Stacks = ${stacks}
Makers = ${makers}
Steps = ${steps}
MaxSteps = ${max}
Readings <- ${readings}
MaxReadings = ${maxR}
Names <- ${names}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const A = ["alarmsThrottle", "alarmsErrors", "alarmsDuration", "alarmsWarning", "alarmsNone", "alarmsZero", "alarmsOwn"];
const B = ["noDb", "noSecret", "timeout", "memory", "concurrency0", "envA", "envB", "envSecret", "handler", "describe", "sg", "x86", "asset", "assetLess", "inline", "layer", "role", "allow", "allowMore", "allowAll", "allowAllHidden", "policy", "policyDeny", "policies3"];
const base = { kind: "replay", module: "FunctionsMC", driver: "functions.ts" };
export default {
  id: "C06",
  assumptions: ["alarms are evaluated by the harness as CloudWatch does (M of the last N periods), missing data not breaching"],
  suites: [
    { ...base, name: "names", ops: ["name", "grant"], cfg: cfg(set("test", "testBare", "noNet"), set("plain", "create", "v2", "db"), "{}", 1, "NoReadings", 0, "AllNames") },
    { ...base, name: "building", ops: ["step", "build"], cfg: { quick: cfg(set("prod", "test", "testBare", "noNet"), set("plain", "create"), set(...B, "alarmsNone"), 2, "NoReadings", 0), thorough: cfg(set("prod", "test", "testBare", "prodBare", "noNet"), set("plain", "create"), set(...B, "concurrency", ...A), 3, "NoReadings", 0) } },
    { ...base, name: "alarms", ops: ["step", "build", "read"], cfg: { quick: cfg(set("prod", "test"), set("create"), set(...A, "timeout"), 2, "SomeReadings", 2), thorough: cfg(set("prod", "test"), set("create"), set(...A, "timeout900"), 2, "AllReadings", 2) } },
    { ...base, name: "older", ops: ["step", "build", "read"], cfg: { quick: cfg(set("prod", "test", "testBare"), set("monitored", "v2", "db"), set(...A, "timeout", "memory", "envA", "role", "noTimeout", "disable"), 1, "SomeReadings", 2), thorough: cfg(set("prod", "test", "testBare", "prodBare", "noNet"), set("monitored", "v2", "db"), set(...A, "timeout", "timeout900", "memory", "concurrency", "concurrency0", "x86", "envA", "role", "noTimeout", "disable"), 1, "AllReadings", 2) } },
  ],
};
