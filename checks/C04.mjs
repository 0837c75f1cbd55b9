const cfg = (s, kinds, envs, nulls, work, n, replies, thr) => `SPECIFICATION Spec
CONSTANTS Sessions = ${s}
Kinds = ${kinds}
Envs = ${envs}
Nulls = ${nulls}
Work = ${work}
MaxWork = ${n}
Replies = ${replies}
Throws = ${thr}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const ops = ["open", "accept", "answer", "query", "finish", "throw"];
const base = { kind: "replay", module: "Database", driver: "database.ts", ops, allowUnhandled: true };
export default {
  id: "C04",
  assumptions: ["the PostgreSQL server is replaced by one that speaks its wire protocol on the loopback interface; pg-promise and pg are the real ones"],
  suites: [
    { ...base, name: "one", cfg: { quick: cfg('{"s"}', '{"db", "ro", "tx"}', '{"full", "norw", "noro"}', "{TRUE, FALSE}", '{"write", "select"}', 2, '{"ok", "error", "drop"}', '{"own", "rethrow"}'), thorough: cfg('{"s"}', '{"db", "ro", "tx"}', '{"full", "norw", "noro"}', "{TRUE, FALSE}", '{"write", "select"}', 3, '{"ok", "error", "drop"}', '{"own", "rethrow"}') } },
    { ...base, name: "two", cfg: { quick: cfg('{"s", "t"}', '{"tx", "ro"}', '{"full"}', "{FALSE}", '{"write"}', 1, '{"ok", "error"}', '{"own"}'), thorough: cfg('{"s", "t"}', '{"tx", "ro", "db"}', '{"full"}', "{FALSE}", '{"write"}', 1, '{"ok", "error", "drop"}', '{"own", "rethrow"}') } },
  ],
};
