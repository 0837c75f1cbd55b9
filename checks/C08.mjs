const cfg = (kinds, messages, names, steps) => `SPECIFICATION Spec
CONSTANTS Kinds = ${kinds}
Messages = ${messages}
Names <- ${names}
Steps = ${steps}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "QueuesMC", driver: "queues.ts" };
export default {
  id: "C08", tree: true,
  assumptions: ["queues, redrive and the bucket are simulated by the harness according to the synthesised resources; the function of the dead letters runs from its synthesised source text, with the AWS SDK replaced", "its clock moves between batches (it never runs twice at the same time)"],
  suites: [
    { ...base, name: "flow", ops: ["create", "send", "consume", "collect", "drop", "flood"], cfg: { quick: cfg('{"standard", "fifo", "own", "dlq"}', '{"m1", "m2", "m3"}', "NoNames", 6), thorough: cfg('{"standard", "fifo", "own", "dlq"}', '{"m1", "m2", "m3"}', "NoNames", 7) } },
    { ...base, name: "names", ops: ["name"], cfg: cfg('{"names"}', "{}", "AllNames", 1) },
  ],
};
