const cfg = (contents, statuses, files, times, locs, types, ops) => `SPECIFICATION Spec
CONSTANTS Contents <- ${contents}
Statuses = ${statuses}
Files = ${files}
Times = ${times}
Locations = ${locs}
Types = ${types}
Ops = ${ops}
VIEW View
INVARIANT Invariants
PROPERTY SameAgain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const lcfg = (contents, statuses, files, times, ops) => `SPECIFICATION Spec
CONSTANTS Contents = ${contents}
Statuses = ${statuses}
Files = ${files}
Times = ${times}
Ops = ${ops}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const all = '{"body", "status", "file", "time", "location", "type", "compress", "build", "static"}';
export default {
  id: "C02",
  assumptions: ["gzip and base64 decoding of node:zlib and Buffer are trusted", "contents are representatives: empty, incompressible, compressible, non-ASCII, object, around and above the size limit"],
  suites: [
    { kind: "replay", name: "proxy", module: "ProxyResponse", driver: "response.ts", ops: ["body", "status", "file", "time", "location", "type", "compress", "build", "static"],
      cfg: { quick: cfg("SmallContents", "{200, 204, 404}", '{"", "a.csv"}', '{"t1", "undefined"}', '{"/x"}', '{"text/csv"}', all),
        thorough: cfg("SmallContents", "{200, 204, 302, 404, 500}", '{"", "a.csv", "b c.zip"}', '{"t1", "t2", "undefined"}', '{"/x"}', '{"text/csv", "application/json"}', all) } },
    { kind: "replay", name: "proxystatus", module: "ProxyResponse", driver: "response.ts", ops: ["body", "status", "build"],
      cfg: cfg("FewContents", "{" + [100, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 403, 404, 405, 409, 410, 413, 418, 422, 429, 500, 501, 502, 503].join() + "}", "{}", "{}", "{}", "{}", '{"body", "status", "build"}') },
    { kind: "replay", name: "proxybytes", module: "ProxyResponse", driver: "response.ts", ops: ["body", "compress", "build"],
      cfg: cfg("ByteContents", "{200, 404}", '{"a.png"}', "{}", "{}", '{"image/jpeg"}', '{"body", "status", "type", "file", "compress", "build"}') },
    { kind: "replay", name: "proxytimes", module: "ProxyResponse", driver: "response.ts", ops: ["time", "build"],
      cfg: cfg("FewContents", "{200}", "{}", '{"t1", "t2", "t1d", "t2d", "undefined"}', "{}", "{}", '{"body", "time", "build"}') },
    { kind: "replay", name: "lambdatimes", module: "LambdaResponse", driver: "response.ts", ops: ["time", "build"],
      cfg: lcfg('{"tiny"}', "{200}", "{}", '{"t1", "t2", "t1d", "t2d", "undefined"}', '{"body", "time", "build"}') },
    { kind: "replay", name: "proxybig", module: "ProxyResponse", driver: "response.ts", ops: ["body", "compress", "build"], maxLen: 1,
      cfg: cfg("BigContents", "{200}", "{}", "{}", "{}", "{}", '{"body", "compress", "build"}') },
    { kind: "replay", name: "lambda", module: "LambdaResponse", driver: "response.ts", ops: ["body", "status", "file", "time", "build", "old", "maker"],
      cfg: lcfg('{"empty", "tiny", "text", "unicode", "object"}', "{200, 204, 404}", '{"", "a.csv"}', '{"t1", "t2", "undefined"}', '{"body", "status", "file", "time", "build", "old", "maker"}') },
    { kind: "replay", name: "lambdabig", module: "LambdaResponse", driver: "response.ts", ops: ["body", "build"],
      cfg: lcfg('{"noise", "huge", "wide", "lfits", "lover", "text"}', "{200, 404}", "{}", "{}", '{"body", "status", "build"}') },
  ],
};
