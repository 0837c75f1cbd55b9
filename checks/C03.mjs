const cfg = (readers, versions, statuses, instants, slots, maxFetch) => `SPECIFICATION Spec
CONSTANTS Readers = ${readers}
Versions = ${versions}
Statuses = ${statuses}
Instants = ${instants}
Slots = ${slots}
MaxFetch = ${maxFetch}
VIEW View
INVARIANT Invariants
PROPERTY FailureKeeps
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const ST = '{"ok", "down", "empty", "garbled"}';
const base = { kind: "replay", module: "Secrets", driver: "secrets.ts", bundle: { stubs: { "@aws-sdk/client-secrets-manager": "secrets-manager.ts" } } };
export default {
  id: "C03",
  assumptions: ["the AWS SDK client is replaced at its interface; the clock is virtual"],
  bundle: base.bundle,
  suites: [
    { ...base, name: "caching", ops: ["get", "answer", "rotate", "status", "advance"], cfg: { quick: cfg('{"plain", "prefixed"}', "{1, 2}", '{"ok", "down"}', "{1, 300000, 300001, 600000}", "{1}", 3), thorough: cfg('{"plain", "prefixed"}', "{1, 2, 3}", ST, "{1, 150000, 299999, 300000, 300001, 450000, 450001, 600001}", "{1}", 4) } },
    { ...base, name: "concurrent", ops: ["get", "answer", "rotate", "status", "advance"], cfg: { quick: cfg('{"plain"}', "{1, 3}", '{"ok", "down"}', "{1, 300000, 300001}", "{1, 2}", 4), thorough: cfg('{"plain", "prefixed"}', "{1, 3}", '{"ok", "down"}', "{1, 300000, 300001}", "{1, 2, 3}", 4) } },
    { ...base, name: "credentials", ops: ["get", "answer", "rotate", "status", "advance"], cfg: { quick: cfg('{"proxy", "rds"}', "{1, 2, 4, 5}", '{"ok", "garbled"}', "{300001}", "{1}", 3), thorough: cfg('{"proxy", "rds"}', "{1, 2, 3, 4, 5}", ST, "{300000, 300001}", "{1, 2}", 3) } },
    { ...base, name: "direct", ops: ["get", "answer", "rotate", "status", "envget"], cfg: cfg('{"direct", "directprefixed", "env"}', "{1, 2, 4, 5}", ST, "{}", "{1, 2}", 3) },
    { ...base, kind: "trace", name: "random", module: "SecretsTrace", params: { quick: { n: 150, len: 60 }, thorough: { n: 3000, len: 120 } },
      corrupt: (t, rng) => { const i = Math.floor(rng() * t.ev.length); t.ev[i].o.fetches += 1; return t; },
      cfg: `SPECIFICATION TSpec
CONSTANTS Readers = {"plain", "prefixed", "proxy", "rds", "direct", "directprefixed", "env"}
Versions = {1, 2, 3, 4, 5}
Statuses = {}
Instants = {}
Slots = {1, 2, 3, 4}
MaxFetch = 0
INVARIANT Invariants
` },
  ],
};
