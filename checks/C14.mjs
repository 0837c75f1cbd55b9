const cfg = (envs, nets, dbs, proxies, ids, steps) => `SPECIFICATION Spec
CONSTANTS Envs = ${envs}
Nets <- ${nets}
Dbs <- ${dbs}
Proxies <- ${proxies}
Identifiers <- ${ids}
Steps = ${steps}
VIEW View
INVARIANT Invariants
PROPERTY NeverLost
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
export default {
  id: "C14",
  assumptions: ["CloudFormation is simulated by the harness from the synthesised templates: references, exports, imports, SSM parameters, retained resources; an export in use cannot be withdrawn"],
  suites: [
    { kind: "replay", name: "stacks", module: "EnvironmentMC", driver: "environment.ts", ops: ["network", "database", "proxy", "names", "destroy", "identify"],
      cfg: { quick: cfg('{"test", "prod"}', "SomeNets", "SomeDbs", "SomeProxies", "SomeIds", 5), thorough: cfg('{"test", "prod"}', "SomeNets", "SomeDbs", "SomeProxies", "SomeIds", 8) } },
  ],
};
