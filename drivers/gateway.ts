// A small API gateway: takes a synthesised AWS::ApiGateway::Method and lets a request through it, as the real one does.
import velocity from "velocityjs";

export interface Req { method: string; contentType?: string; path?: Record<string, string>; query?: [string, string][]; header?: Record<string, string>; context?: Record<string, any>; body?: string }
export interface Backend {
  /** lambda: the event as text; the answer is the lambda's result as text, or an error */
  lambda?: (event: string) => { result?: string; errorMessage?: string };
  /** another AWS service: status and body */
  service?: (uri: any, headers: Record<string, string>, body: string) => { status: number; body: string };
}
export interface Res { status: number; headers: Record<string, string>; body: string }

export function escapeJavaScript(s: unknown): string {
  if (s === undefined || s === null) return "";
  return String(s).replace(/[\\"'/\u0000-\u001f\u0080-\uffff]/g, (c) => {
    const short: Record<string, string> = { "\b": "\\b", "\n": "\\n", "\t": "\\t", "\f": "\\f", "\r": "\\r" };
    if (short[c]) return short[c]!;
    if (/[\\"'/]/.test(c)) return `\\${c}`;
    return `\\u${c.charCodeAt(0).toString(16).toUpperCase().padStart(4, "0")}`;
  });
}

// velocityjs forgets the outer loop's $foreach after an inner loop; Velocity does not
class Engine extends (velocity.Compile as any) {
  getBlockEach(block: any): string {
    const conditions = [...(this as any).conditions], contextId = (this as any).contextId;
    const r = super.getBlockEach(block);
    (this as any).conditions = conditions; (this as any).contextId = contextId;
    return r;
  }
}
const asts = new Map<string, any>();
const parsed = (t: string): any => { if (!asts.has(t)) asts.set(t, velocity.parse(t)); return asts.get(t); };
/** renders a mapping template with the gateway's variables; strings behave as those of Java where it matters */
export function renderTemplate(template: string, vars: Record<string, any>): { text: string; vars: any } {
  const P = String.prototype as any;
  const patched: Record<string, any> = {
    replaceAll(this: string, re: string, by: string) { return this.replace(new RegExp(re, "g"), by); },
    equals(this: string, o: unknown) { return String(this) === String(o); },
    isEmpty(this: string) { return this.length === 0; },
    contains(this: string, o: string) { return this.includes(o); },
    matches(this: string, re: string) { return new RegExp(`^(?:${re})$`).test(this); },
  };
  const onMaps: Record<string, any> = {
    containsKey(this: any, k: string) { return Object.prototype.hasOwnProperty.call(this, String(k)); },
    getOrDefault(this: any, k: string, d: unknown) { return Object.prototype.hasOwnProperty.call(this, String(k)) ? this[String(k)] : d; },
    putIfAbsent(this: any, k: string, v: unknown) { if (!Object.prototype.hasOwnProperty.call(this, String(k))) this[String(k)] = v; },
  };
  const all: [any, string, any][] = [...Object.entries(patched).map(([k, f]) => [P, k, f] as [any, string, any]), ...Object.entries(onMaps).map(([k, f]) => [Object.prototype, k, f] as [any, string, any])];
  const old = all.map(([o, k]) => Object.getOwnPropertyDescriptor(o, k));
  for (const [o, k, f] of all) Object.defineProperty(o, k, { value: f, configurable: true, writable: true });
  // velocityjs adds a function named eval to the maps whose methods are called
  Object.defineProperty(Object.prototype, "eval", { configurable: true, get() { return undefined; }, set() { /* not wanted */ } });
  try {
    const c = new Engine(parsed(template));
    const text = c.render(vars) as string;
    return { text, vars: (c as any).context };
  } finally {
    delete (Object.prototype as any).eval;
    all.forEach(([o, k], i) => { if (old[i]) Object.defineProperty(o, k, old[i]!); else delete o[k]; });
  }
}
const jsonPath = (root: any, p: string): any => (p === "$" ? root : p.replace(/^\$\.?/, "").split(".").reduce((x: any, k) => x?.[k], root));
function inputOf(req: Req, body: string): any {
  const query: Record<string, string> = {};
  for (const [k, v] of req.query ?? []) query[k] = v;
  const all: any = { path: { ...req.path }, querystring: query, header: { ...req.header } };
  const tryJson = (): any => { try { return JSON.parse(body); } catch { return undefined; } };
  return { body, params: (n?: string) => (n === undefined ? all : all.path[n] ?? query[n] ?? all.header[n] ?? ""), path: (p: string) => jsonPath(tryJson(), p), json: (p: string) => JSON.stringify(jsonPath(tryJson(), p)) };
}
const util = {
  escapeJavaScript, urlEncode: (s: string) => encodeURIComponent(s).replace(/%20/g, "+"), urlDecode: (s: string) => decodeURIComponent(s.replace(/\+/g, " ")),
  base64Encode: (s: string) => Buffer.from(s ?? "", "utf8").toString("base64"), base64Decode: (s: string) => Buffer.from(s ?? "", "base64").toString("utf8"), parseJson: (s: string) => JSON.parse(s),
};
const nest = (flat: Record<string, any>): any => {
  const r: any = {};
  for (const [k, v] of Object.entries(flat)) { const ps = k.split("."); let o = r; for (const p of ps.slice(0, -1)) o = o[p] ??= {}; o[ps.at(-1)!] = v; }
  return r;
};

/** method: the properties of an AWS::ApiGateway::Method */
export function handle(method: any, req: Req, backend: Backend): Res {
  const integ = method.Integration;
  if (method.HttpMethod !== undefined && method.HttpMethod !== "ANY" && method.HttpMethod !== req.method) return { status: 403, headers: {}, body: '{"message": "Missing Authentication Token"}' };
  if (integ.Type === "AWS_PROXY") {
    // the lambda gets the request as a whole and has to make the answer itself
    const l = backend.lambda!(JSON.stringify({ httpMethod: req.method, headers: req.header, queryStringParameters: Object.fromEntries(req.query ?? []), pathParameters: req.path, body: req.body }));
    const a = l.result === undefined ? undefined : JSON.parse(l.result);
    return typeof a?.statusCode === "number" ? { status: a.statusCode, headers: a.headers ?? {}, body: a.body ?? "" } : { status: 502, headers: {}, body: '{"message": "Internal server error"}' };
  }
  const templates = integ.RequestTemplates ?? {};
  const ct = (req.contentType ?? "application/json");
  const multi: Record<string, string[]> = {};
  for (const [k, v] of req.query ?? []) (multi[k] ??= []).push(v);
  const declared = Object.entries(method.RequestParameters ?? {});
  for (const [k, needed] of declared) if (needed === true && /querystring/.test(k) && !multi[k.split(".").at(-1)!]) return { status: 400, headers: {}, body: '{"message": "Missing required request parameters"}' };
  let body = req.body ?? "";
  const template = templates[ct] ?? templates[ct.split(";")[0]!];
  if (template !== undefined) {
    const r = renderTemplate(template, { input: inputOf(req, body), util, context: nest(req.context ?? {}), method: { request: { multivaluequerystring: multi, querystring: Object.fromEntries(req.query ?? []), path: req.path ?? {}, header: req.header ?? {} } } });
    body = r.text;
  } else {
    const pb = integ.PassthroughBehavior ?? "WHEN_NO_MATCH";
    if (pb === "NEVER" || (pb === "WHEN_NO_TEMPLATES" && Object.keys(templates).length > 0)) return { status: 415, headers: {}, body: '{"message": "Unsupported Media Type"}' };
  }
  const headers: Record<string, string> = {};
  for (const [k, v] of Object.entries(integ.RequestParameters ?? {})) { const m = k.match(/^integration\.request\.header\.(.*)$/); if (m) headers[m[1]!] = /^'.*'$/.test(String(v)) ? String(v).slice(1, -1) : req.header?.[String(v).split(".").at(-1)!] ?? ""; }
  const responses: any[] = integ.IntegrationResponses ?? [];
  let out = "", on: string | undefined;
  if (integ.Type === "MOCK") on = String(JSON.parse(body).statusCode);
  else if (backend.service) { const s = backend.service(integ.Uri, headers, body); out = s.body; on = String(s.status); }
  else {
    try { JSON.parse(body || "{}"); } catch { return { status: 400, headers: {}, body: '{"message": "Could not parse request body into json"}' }; }
    const l = backend.lambda!(body); out = l.result ?? JSON.stringify({ errorMessage: l.errorMessage }); on = l.errorMessage;
  }
  const matched = on !== undefined ? responses.find((r) => r.SelectionPattern && new RegExp(`^(?:${r.SelectionPattern})$`).test(on!)) : undefined;
  const ir = matched ?? responses.find((r) => !r.SelectionPattern);
  if (!ir) return { status: 500, headers: {}, body: '{"message": "Internal server error"}' };
  const mr = (method.MethodResponses ?? []).find((r: any) => r.StatusCode === ir.StatusCode);
  if (!mr) return { status: 500, headers: {}, body: '{"message": "No such method response"}' };
  const res: Res = { status: Number(ir.StatusCode), headers: { "Content-Type": Object.keys(ir.ResponseTemplates ?? mr.ResponseModels ?? {})[0] ?? "application/json" }, body: out };
  for (const [k, v] of Object.entries(ir.ResponseParameters ?? {})) {
    const name = k.replace(/^method\.response\.header\./, "");
    if (!mr.ResponseParameters || !(k in mr.ResponseParameters)) return { status: 500, headers: {}, body: `undeclared header ${name}` };
    res.headers[name] = String(v).replace(/^'(.*)'$/s, "$1");
  }
  const rt = Object.values(ir.ResponseTemplates ?? {})[0] as string | undefined;
  if (rt !== undefined) {
    const override: any = { status: undefined, header: {} };
    const r = renderTemplate(rt, { input: inputOf(req, out), util, context: { ...nest(req.context ?? {}), responseOverride: override } });
    res.body = r.text;
    const o = r.vars?.context?.responseOverride ?? override;
    if (o.status !== undefined) res.status = Number(o.status);
    for (const [k, v] of Object.entries(o.header ?? {})) if (v !== undefined) res.headers[k] = String(v);
  }
  return res;
}
