const cfg = (stacks, white, res, max) => `SPECIFICATION Spec
CONSTANTS Stacks <- ${stacks}
Whitelists <- ${white}
Resources <- ${res}
MaxResources = ${max}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "StackChecksMC", driver: "stackchecks.ts", ops: ["add", "check"] };
export default {
  id: "C07",
  assumptions: ["the aspects registered on the stack are applied to its constructs by the harness, as synthesis does"],
  suites: [
    { ...base, name: "single", cfg: cfg("OneStack", "AllWhite", "Everything", 1) },
    { ...base, name: "stacks", cfg: cfg("AllStacks", "AllWhite", "Some", 1) },
    { ...base, name: "deep", cfg: { quick: cfg("OneStack", "DeepWhite", "Deep", 2), thorough: cfg("OneStack", "DeepWhite", "Deep", 4) } },
    { ...base, name: "several", cfg: { quick: cfg("OneStack", "FewWhite", "Some", 3), thorough: cfg("OneStack", "AllWhite", "Some", 4) } },
  ],
};
