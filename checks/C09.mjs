const cfg = (kind, adds, reqs, builds, steps) => `SPECIFICATION Spec
CONSTANTS Kind = "${kind}"
Adds <- ${adds}
Requests <- ${reqs}
Builds <- ${builds}
Answers <- ${kind === "lambda" ? "AllAnswers" : "NoSeq"}
Queues <- ${kind === "queue" ? "AllQueues" : "NoSet"}
Posts <- ${kind === "queue" ? "AllPosts" : "NoSet"}
Statics <- ${kind === "static" ? "AllStatics" : "NoSet"}
Gets <- ${kind === "static" ? "AllGets" : "NoSet"}
Proxies <- ${kind === "proxy" ? "AllProxies" : "NoSet"}
Olds <- ${kind === "old" ? "AllOlds" : "NoSet"}
Calls <- ${kind === "old" ? "AllCalls" : "NoSet"}
MaxSteps = ${steps}
Spread = ${steps > 3 ? 2 : 0}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "IntegrationMC", driver: "integration.ts" };
const other = (kind, ops) => ({ ...base, name: kind, ops, cfg: cfg(kind, "NoAdds", "NoSeq", "NoSet", 0) });
export default {
  id: "C09",
  assumptions: ["the API gateway is modelled in the harness (drivers/gateway.ts): velocityjs renders the templates, with the string functions of Java and the escaping of $util.escapeJavaScript as documented; selection patterns and passthrough rules as documented", "a parameter the client leaves out may be missing from the event or empty"],
  suites: [
    { ...base, name: "lambda", ops: ["add", "passAll", "passBody", "build", "request"], maxLen: 60, cfg: { quick: cfg("lambda", "AllAdds", "FewRequests", "FewBuilds", 3), thorough: cfg("lambda", "AllAdds", "AllRequests", "AllBuilds", 4) } },
    other("queue", ["queue", "post"]), other("static", ["static", "get"]), other("proxy", ["proxy"]), other("old", ["old", "call"]),
  ],
};
