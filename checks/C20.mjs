const cfg = (order, starts, use, steps) => `SPECIFICATION Spec
CONSTANTS Order <- ${order}
Starts <- ${starts}
${["Lists", "States", "Bodies", "Uploads", "Waits", "Deletes"].map((k) => `${k} <- ${use[k] ?? "None"}`).join("\n")}
Steps = ${steps}
VIEW View
INVARIANT Safe
PROPERTIES Untouched Once Forward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const image = (pieces, begins, longest) => `SPECIFICATION Spec
CONSTANTS Pieces <- ${pieces}
Begins <- ${begins}
Longest = ${longest}
VIEW View
INVARIANTS Tiled Brackets Case
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const picture = { kind: "replay", module: "SignImage", driver: "signimage.ts", ops: ["add"] };
const base = { kind: "replay", shards: 2, module: "SignDataMC", driver: "signdata.ts" };
export default {
  id: "C20",
  bundle: { stubs: { "@aws-sdk/client-secrets-manager": "apps.ts", "@aws-sdk/client-sqs": "sqs.ts", xml2js: "xml.ts", "@rgrove/parse-xml": "xml.ts", uuid: "uuid.ts", mqtt: "empty.ts" } },
  assumptions: ["PostgreSQL is stood in for by a server that speaks its protocol and runs the statements in SQLite after translation; the tables are laid out by the harness, modified being set by a trigger as in the database", "the XML libraries are stood in for by a small parser and writer", "the queue and the secrets manager are stood in for"],
  suites: [
    { ...base, name: "older", ops: ["metadata", "legacy"], cfg: { quick: cfg("TwoSigns", "LegacyStarts", { Lists: "FewLists", Bodies: "AllBodies" }, 2), thorough: cfg("TwoSigns", "LegacyStartsAll", { Lists: "SomeLists", Bodies: "AllBodies" }, 3) } },
    { ...base, name: "newer", ops: ["upload", "handle", "metadata"], cfg: { quick: cfg("TwoSigns", "UploadStarts", { Lists: "FewLists", Uploads: "SignUploads" }, 3), thorough: cfg("ThreeSigns", "UploadStarts", { Lists: "SomeLists", Uploads: "SignUploadsAll" }, 4) } },
    { ...base, name: "kept", ops: ["upload", "handle", "delete", "wait"], cfg: { quick: cfg("TwoSigns", "InboxStarts", { Uploads: "BoxUploads", Waits: "BoxWaits", Deletes: "One" }, 3), thorough: cfg("TwoSigns", "InboxStarts", { Uploads: "BoxUploads", Waits: "BoxWaitsAll", Deletes: "One" }, 4) } },
    { ...base, name: "states", ops: ["state"], cfg: { quick: cfg("TwoSigns", "StateStarts", { States: "AllStates" }, 2), thorough: cfg("TwoSigns", "StateStarts", { States: "AllStates" }, 4) } },
    { ...base, name: "list", ops: ["metadata"], cfg: { quick: cfg("ThreeSigns", "StateStarts", { Lists: "AllLists" }, 3), thorough: cfg("ThreeSigns", "StateStarts", { Lists: "AllLists" }, 4) } },
    { ...picture, name: "image", cfg: { quick: image("AllPieces", "EmptyText", 2), thorough: image("AllPieces", "EmptyText", 3) } },
    { ...picture, name: "image-more", cfg: { quick: image("FewPieces", "SomeTexts", 2), thorough: image("FewPieces", "SomeTexts", 3) } },
  ],
};
