const cfg = (probes) => `SPECIFICATION Spec
CONSTANTS Probes <- ${probes}
VIEW View
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
`;
const base = { kind: "replay", module: "ValuesMC", driver: "values.ts", bundle: { stubs: { "@aws-sdk/client-s3": "s3.ts" } } };
export default {
  id: "C13",
  bundle: base.bundle,
  assumptions: ["HTTP requests and the AWS SDK are replaced at their interfaces"],
  suites: [
    { ...base, name: "geometry", ops: ["wkt", "gml", "distance", "distinct", "geojson", "collection", "notgeojson"], cfg: cfg("GeoProbes") },
    { ...base, name: "identifiers", ops: ["imo", "mmsi", "locode", "param", "isodate", "utc", "diff", "base64"], cfg: cfg("IdProbes") },
    { ...base, name: "numbers", thoroughOnly: true, ops: ["imo"], cfg: cfg("AllImos") },
    { ...base, name: "collections", ops: ["samevalues", "ends", "omit", "getenv", "setenv", "message", "defined", "owns", "notify", "upload"], cfg: cfg("MiscProbes") },
  ],
};
