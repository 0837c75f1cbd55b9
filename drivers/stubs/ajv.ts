// a small validator of JSON schemas: types, what is required, enumerations and what lies within
const typeOk = (t: string, v: any): boolean => t === "null" ? v === null : t === "array" ? Array.isArray(v) : t === "integer" ? Number.isInteger(v) : t === "object" ? typeof v === "object" && v !== null && !Array.isArray(v) : typeof v === t;
function errors(s: any, v: any, at: string): string[] {
  if (!s || typeof s !== "object") return [];
  if (v === null && s.nullable) return [];
  if (s.type && ![s.type].flat().some((t: string) => typeOk(t, v))) return [`${at} must be ${[s.type].flat().join(",")}`];
  const r: string[] = [];
  if (s.enum && !s.enum.includes(v)) r.push(`${at} must be equal to one of the allowed values`);
  if (v !== null && typeof v === "object" && !Array.isArray(v)) {
    for (const k of s.required ?? []) if (v[k] === undefined) r.push(`${at} must have required property '${k}'`);
    for (const [k, p] of Object.entries(s.properties ?? {})) if (v[k] !== undefined) r.push(...errors(p, v[k], `${at}/${k}`));
  }
  if (Array.isArray(v) && s.items) v.forEach((x, i) => r.push(...errors(s.items, x, `${at}/${i}`)));
  return r;
}
export default class Ajv {
  private last: string[] = [];
  constructor(_o?: unknown) {}
  addFormat(): this { return this; }
  addKeyword(): this { return this; }
  validate(schema: any, v: unknown): boolean { this.last = errors(schema, v, "data"); return this.last.length === 0; }
  errorsText(): string { return this.last.join(", "); }
}
