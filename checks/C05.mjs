const cfg = (steps, max, plans, reqs, maxReq) => `SPECIFICATION Spec
CONSTANTS Steps <- ${steps}
MaxSteps = ${max}
Plans <- ${plans}
Requests <- ${reqs}
MaxRequests = ${maxReq}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "WebAclMC", driver: "webacl.ts" };
export default {
  id: "C05",
  assumptions: ["the firewall's own evaluation of statements is the harness's: a size constraint on an absent header does not match, rate-based rules act beyond their limit within one window"],
  suites: [
    { ...base, name: "building", ops: ["add", "build"], cfg: { quick: cfg("AllSteps", 2, "NoPlans", "NoRequests", 0), thorough: cfg("AllSteps", 3, "NoPlans", "NoRequests", 0) } },
    { ...base, name: "throttling", ops: ["plan", "ask"], cfg: { quick: cfg("NoSteps", 0, "Pairs", "Flow", 4), thorough: cfg("NoSteps", 0, "Pairs", "FlowMore", 6) } },
    { ...base, name: "filtering", ops: ["plan", "ask"], cfg: { quick: cfg("NoSteps", 0, "Filters", "Odd", 2), thorough: cfg("NoSteps", 0, "Filters", "Odd", 4) } },
  ],
};
