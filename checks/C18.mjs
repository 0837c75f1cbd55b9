const cfg = (stacks, reqs, ticks, max) => `SPECIFICATION Spec
CONSTANTS Stacks <- ${stacks}
Requests <- ${reqs}
Ticks <- ${ticks}
MaxCache = ${max}
VIEW View
INVARIANT Invariants
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const limits = (bursts) => `SPECIFICATION Spec
CONSTANTS Stacks <- McStacks
Bursts <- ${bursts}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "EdgeMC", driver: "edge.ts" };
export default {
  id: "C18",
  // the handlers as rollup would leave them in dist/lambda, and the stack as a module of its own (it keeps state in modules)
  extra: {
    handlers: { dir: "other/cloudfront/src/lambda", out: "dist/lambda", skip: /image-not-available|header-util|uri-util|function-events/, stubs: { "@aws-sdk/client-secrets-manager": "fixed-secrets.ts" } },
    modules: { "edge-stack.cjs": ["other/cloudfront/src/cloudfront-cdk-stack.ts", "other/cloudfront/src/distribution/behavior.ts", "other/cloudfront/src/acl/waf-rules.ts"] },
  },
  assumptions: ["CloudFront is modelled in the harness from the synthesised distribution: path patterns in order, viewer protocol, methods, cache and origin request policies, functions at their events", "the handlers are bundled by esbuild instead of rollup; the secret store answers at once"],
  suites: [
    { ...base, module: "EdgeLimits", name: "limits", ops: ["build", "burst", "threat"], cfg: { quick: limits("QuickBursts"), thorough: limits("McBursts") } },
    { ...base, name: "building", ops: ["build", "ask"], cfg: cfg("BuildStacks", "BuildRequests", "NoTicks", 0) },
    { ...base, name: "flow", ops: ["build", "ask"], cfg: cfg("FlowStacks", "FlowRequests", "NoTicks", 0) },
    { ...base, name: "cache", ops: ["ask", "tick"], cfg: { quick: cfg("CacheStacks", "CacheRequests", "CacheTicks", 1), thorough: cfg("CacheStacks", "CacheRequests", "MoreTicks", 2) } },
  ],
};
