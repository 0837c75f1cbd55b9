import { Waf, lower } from "./waf.js";
import { captureStdout, main, same, type Adapter } from "./rt.js";
import path from "node:path";
import { createRequire } from "node:module";
import { App, LegacyStackSynthesizer } from "aws-cdk-lib";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {}; console.info = () => {}; console.log = () => {};
const TMP = process.env["VERIF_TMP"]!;
const req = createRequire(path.join(TMP, "x.js"));
process.chdir(TMP);
process.env["AWS_REGION"] = "us-east-1";
const ID: Record<string, string> = { "658327ea-f89d-4fab-a63d-7e88639e58f6": "optimized", "216adef6-5c7f-47e4-b989-5492eafa07d3": "all viewer", "b689b0a8-53d0-40ab-baf2-68738e2966ac": "all but host", "88a5eaf4-2fd4-4709-b370-b4c650ea3fcf": "cors s3", "5cc3b908-e619-4b99-88e5-2cf7f45965bd": "any origin" };

/** the stack of a description, synthesised */
function synth(s: any): any {
  const file = path.join(TMP, "edge-stack.cjs");
  delete req.cache[file];
  const m = req(file);
  const app = new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() });
  const stack = new m.CloudfrontCdkStack(app, "S", { env: { region: "us-east-1", account: "123456789012" } });
  const meta = (x: any): any => (x.key === "-" ? x.host : { endpointUrl: x.host, apiKey: x.key });
  for (const d of s.dists) {
    stack.withDistribution(d.name, "arn:aws:acm:us-east-1:123456789012:certificate/c", (b: any) => {
      b.withAliasName(`${d.name}.fi`).withAclRule(m.WafRules.per5min(100, 50));
      if (d.log) b.withLogConfig("arn:log");
      for (const v of d.vpc) b.withVpcOrigin(v, `arn:${d.name}:${v}`);
      b.withBehaviors(...d.of.map((x: any) => {
        const B = m.Behavior;
        let r = x.kind === "api" ? B.apiGateway(x.path, meta(x)) : x.kind === "apiPlain" ? B.apiGatewayPlain(x.path, meta(x)) : x.kind === "nginx" ? B.nginx(x.path, x.host) : x.kind === "nginxPlain" ? B.nginxPlain(x.path, x.host)
          : x.kind === "mqtt" ? B.mqtt(x.host) : x.kind === "vpc" ? B.vpcLb(x.path, x.host) : x.kind === "s3" ? B.s3(x.path, x.host) : x.kind === "swagger" ? B.swagger(x.path, x.host) : B.redirect(x.host);
        for (const o of x.mods) {
          switch (o.m) {
            case "ip": r = r.withIpRestrictionLambda(o.s, o.ips.join(",")); break;
            case "ungzip": r = r.withoutGzipRequirementLambda(); break;
            case "gzip": r = r.withGzipRequirementLambda(); break;
            case "cors": r = r.withHttpHeadersLambda(); break;
            case "corsFn": r = r.withHttpHeadersFunction(); break;
            case "cam": r = r.withWeathercamLambdas(`www.${o.s}`, o.s); break;
            case "cut": r = r.withRemovePathFunction(o.n); break;
            case "index": r = r.withIndexHtmlFunction(); break;
            case "lam": r = r.withLamLambdas("arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-abcdef"); break;
            case "uncors": r = r.removeViewerResponseLambda(); break;
            case "unfn": r = r.removeViewerRequestFunction(); break;
            case "key": r = r.withApiKey(o.s); break;
            case "unkey": r = r.withoutApiKey(); break;
            case "all": r = r.withAllowAllMethods(); break;
            case "ttl": r = r.withCacheTtl(o.n); break;
            case "keys": r = r.withQueryCacheKeys(...o.l); break;
            case "headers": r = r.withCacheHeaders(...o.l); break;
            default: r = r.withReadTimeout(o.n);
          }
        }
        return r;
      }));
    });
  }
  return app.synth({ skipValidation: true }).getStackByName("S").template.Resources;
}
const wild = (p: string, v: string): boolean => new RegExp(`^${(p.startsWith("/") || p === "*" ? p : `/${p}`).split("*").map((x) => x.replace(/[.?+^$[\]\\(){}|-]/g, (c) => (c === "?" ? "." : `\\${c}`))).join(".*")}$`).test(v);
/** code of a handler, loaded once per deployed resource */
function load(code: string, name: string): any {
  const exports: any = {};
  const f = new Function("exports", "require", `${code}\n;return typeof handler === "function" ? handler : exports.handler;`);
  const h = f(exports, req);
  if (typeof h !== "function") throw new Error(`${name}: no handler`);
  return h;
}
const parse = (q: string): [string, string][] => (q === "" ? [] : q.split("&").map((p) => { const [k, v] = p.split("=").map((x) => decodeURIComponent(x.replace(/\+/g, " "))); return [k!, v ?? ""]; }));
const text = (q: [string, string][]): string => q.map(([k, v]) => `${encodeURIComponent(k)}=${encodeURIComponent(v)}`).join("&");
const one = (h: any, k: string): string | undefined => { const e = Object.entries(h ?? {}).find(([n]) => n.toLowerCase() === k) as any; return e?.[1]?.[0]?.value ?? e?.[1]?.value; };

const adapterOf = (keeps: boolean) => (): Adapter => {
  const made = new Map<string, any>();
  let stack: any, cache: Map<string, any>, now = 0;
  const built = (): any => {
    const k = JSON.stringify(stack);
    if (!made.has(k)) {
      try { made.set(k, { rs: synth(stack), handlers: new Map() }); } catch (e) { made.set(k, { refused: String((e as Error).message) }); }
    }
    return made.get(k);
  };
  const ask = async (m: any, r: any): Promise<any> => {
    const rs = m.rs;
    const dists = Object.entries(rs).filter(([, x]: any) => x.Type === "AWS::CloudFront::Distribution").map(([, x]: any) => x.Properties.DistributionConfig);
    const dist = dists.find((x: any) => x.Aliases.includes(`${stack.dists[r.d - 1].name}.fi`));
    const no = { host: "-", path: "-", query: [], key: "-", timeout: 0, proto: "-", header: "-" };
    const ans = (o: any): any => ({ status: 0, to: "-", cors: "-", body: "-", control: "-", modified: "-", file: "-", keyed: false, asked: no, ...o });
    const b = (dist.CacheBehaviors ?? []).find((x: any) => wild(x.PathPattern, r.path)) ?? dist.DefaultCacheBehavior;
    if (!r.https) { if (b.ViewerProtocolPolicy === "redirect-to-https") return ans({ status: 301, to: "https" }); if (b.ViewerProtocolPolicy === "https-only") return ans({ status: 403 }); }
    if (!b.AllowedMethods.includes(r.method)) return ans({ status: 403 });
    // the handlers of the behaviour
    const viewerHost = `${stack.dists[r.d - 1].name}.fi`;
    const handlerAt = (ev: string): { fn?: any; lambda?: any } => {
      const f = (b.FunctionAssociations ?? []).find((x: any) => x.EventType === ev), l = (b.LambdaFunctionAssociations ?? []).find((x: any) => x.EventType === ev);
      const get = (id: string, code: () => string): any => { if (!m.handlers.has(id)) m.handlers.set(id, load(code(), id)); return m.handlers.get(id); };
      if (f) { const id = f.FunctionARN["Fn::GetAtt"][0]; return { fn: get(id, () => rs[id].Properties.FunctionCode) }; }
      if (l) { const v = rs[l.LambdaFunctionARN.Ref], id = v.Properties.FunctionName.Ref; return { lambda: get(id, () => rs[id].Properties.Code.ZipFile) }; }
      return {};
    };
    const headers: any = { host: [{ key: "Host", value: viewerHost }] };
    if (r.gzip) headers["accept-encoding"] = [{ key: "Accept-Encoding", value: "br, gzip" }];
    if (r.auth !== "-") headers["authorization"] = [{ key: "Authorization", value: r.auth }];
    let q: any = { clientIp: r.ip, method: r.method, uri: r.path, querystring: text(r.query), headers };
    const ctx = {} as any;
    const call = async (l: any, cf: any): Promise<any> => l({ Records: [{ cf: { config: {}, ...cf } }] }, ctx);
    const generated = (x: any): any => ans({ status: Number(x.status ?? x.statusCode), to: one(x.headers, "location") ?? "-", cors: cors(x.headers), body: typeof x.body === "string" && /gzip/.test(x.body) ? "gzip needed" : "-", control: one(x.headers, "cache-control") ?? "-" });
    const cors = (h: any): string => { const o = one(h, "access-control-allow-origin"), a = one(h, "access-control-allow-headers"); return o === undefined ? "-" : o === "*" && /Digitraffic-User/.test(a ?? "") && one(h, "access-control-expose-headers") !== undefined && /GET/.test(one(h, "access-control-allow-methods") ?? "") ? "ours" : "partly"; };
    const v = handlerAt("viewer-request");
    if (v.fn) {
      const x = v.fn({ request: { ...q, querystring: {}, headers: {} }, response: undefined });
      if (x.statusCode) return generated(x);
      q = { ...q, uri: x.uri };
    } else if (v.lambda) {
      const x = await call(v.lambda, { request: q });
      if (x.status) return generated(x);
      q = x;
    }
    // the cache
    const policy = rs[b.CachePolicyId.Ref].Properties.CachePolicyConfig, par = policy.ParametersInCacheKeyAndForwardedToOrigin;
    const orp = ID[b.OriginRequestPolicyId];
    const allowed = par.QueryStringsConfig.QueryStringBehavior === "all" ? (): boolean => true : (k: string): boolean => (par.QueryStringsConfig.QueryStrings ?? []).includes(k);
    const hs: string[] = par.HeadersConfig?.Headers ?? [];
    const key = JSON.stringify([r.d, b.PathPattern ?? "*", r.method, q.uri, parse(q.querystring).filter(([k]) => allowed(k)), hs.map((h) => one(q.headers, h.toLowerCase()) ?? ""), par.EnableAcceptEncodingGzip ? /gzip/.test(one(q.headers, "accept-encoding") ?? "") : "-"]);
    const cacheable = ["GET", "HEAD", "OPTIONS"].includes(r.method) && (b.CachedMethods ?? ["GET", "HEAD"]).includes(r.method);
    const hit = cacheable ? cache.get(key) : undefined;
    let resp: any, asked = no;
    if (hit && now < hit.until) resp = structuredClone(hit.resp);
    else {
      const o = dist.Origins.find((x: any) => x.Id === b.TargetOriginId);
      const toOrigin: any = { ...q, headers: { ...q.headers }, querystring: orp === "cors s3" ? text(parse(q.querystring).filter(([k]) => allowed(k))) : q.querystring };
      if (orp !== "all viewer") toOrigin.headers.host = [{ key: "Host", value: o.DomainName }];
      const hdrs = Object.fromEntries((o.OriginCustomHeaders ?? []).map((h: any) => [h.HeaderName.toLowerCase(), [{ key: h.HeaderName, value: h.HeaderValue }]]));
      const s3 = o.S3OriginConfig !== undefined && o.CustomOriginConfig === undefined;
      toOrigin.origin = s3 ? { s3: { domainName: o.DomainName, path: o.OriginPath ?? "", authMethod: o.OriginAccessControlId ? "origin-access-identity" : "none", customHeaders: hdrs, region: "eu-west-1" } }
        : { custom: { domainName: o.DomainName, path: o.OriginPath ?? "", protocol: o.VpcOriginConfig ? "vpc" : o.CustomOriginConfig.OriginProtocolPolicy === "http-only" ? "http" : "https", readTimeout: (o.VpcOriginConfig ?? o.CustomOriginConfig).OriginReadTimeout, customHeaders: hdrs } };
      let x: any = toOrigin, failed = false;
      const or = handlerAt("origin-request");
      if (or.lambda) { try { x = await call(or.lambda, { request: toOrigin }); } catch { failed = true; } }
      if (failed) return ans({ status: 502 });
      if (x.status) resp = { status: x.status, headers: x.headers ?? {}, body: "-" };
      else {
        const c = x.origin.custom ?? x.origin.s3;
        if (x.origin.s3 && x.origin.s3.authMethod === "none") throw new Error("the bucket is asked without rights");
        asked = { host: c.domainName, path: `${c.path}${x.uri}`, query: parse(x.querystring), key: one(c.customHeaders, "x-api-key") ?? "-", timeout: x.origin.s3 ? 0 : c.readTimeout, proto: x.origin.s3 ? "s3" : c.protocol, header: one(x.headers, "host") === viewerHost ? "viewer" : one(x.headers, "host") ?? "-" } as any;
        resp = { status: String(r.ans), statusDescription: "x", headers: { "content-type": [{ key: "Content-Type", value: "text/plain" }] }, body: "origin" };
        if (r.says !== "-") resp.headers["cache-control"] = [{ key: "Cache-Control", value: r.says === "max" ? `max-age=${r.max}` : r.says }];
        if (r.modified === "lower") resp.headers["x-amz-meta-last-modified"] = [{ key: "x-amz-meta-last-modified", value: "lower" }];
        if (r.modified === "Upper") resp.headers["X-Amz-Meta-Last-Modified"] = [{ key: "X-Amz-Meta-Last-Modified", value: "Upper" }];
        if (c.domainName === "snow.flake") Object.assign(resp.headers, { "x-api-key": [{ value: "snow-key" }], "x-amzn-remapped-host": [{ value: "snow.flake" }], "x-amzn-remapped-x-forwarded-for": [{ value: "1" }] });
        const os = handlerAt("origin-response");
        if (os.lambda) { const { body, ...plain } = resp; try { const y = await call(os.lambda, { request: x, response: plain }); resp = { body, ...y }; } catch { return ans({ status: 502 }); } }
        const cc = one(resp.headers, "cache-control") ?? "";
        const ttl = /no-cache|no-store/.test(cc) ? policy.MinTTL : /max-age=(\d+)/.test(cc) ? Math.min(policy.MaxTTL, Math.max(policy.MinTTL, Number(/max-age=(\d+)/.exec(cc)![1]))) : policy.DefaultTTL;
        if (keeps && cacheable && resp.status === "200" && ttl > 0) cache.set(key, { resp: structuredClone(resp), until: now + ttl });
      }
    }
    const vs = handlerAt("viewer-response");
    if (Number(resp.status) >= 400) { /* not called */ } else if (vs.fn) {
      const flat = Object.fromEntries(Object.entries(resp.headers).map(([k, h]: any) => [k, { value: h[0].value }]));
      const y = vs.fn({ request: { ...q, querystring: {} }, response: { statusCode: Number(resp.status), headers: flat } });
      resp = { ...resp, status: String(y.statusCode), headers: Object.fromEntries(Object.entries(y.headers).map(([k, h]: any) => [k, [h]])) };
    } else if (vs.lambda) { const { body, ...plain } = resp; resp = { body, ...(await call(vs.lambda, { request: q, response: plain })) }; }
    if (cors(resp.headers) === "-" && ID[b.ResponseHeadersPolicyId] === "any origin") resp.headers["access-control-allow-origin"] = [{ value: "any" }];
    const type = one(resp.headers, "content-type"), dis = one(resp.headers, "content-disposition");
    return ans({
      status: Number(resp.status), to: one(resp.headers, "location") ?? "-", cors: one(resp.headers, "access-control-allow-origin") === "any" ? "any" : cors(resp.headers),
      body: resp.body === "origin" ? "origin" : resp.bodyEncoding === "base64" && resp.body.startsWith("/9j/") && type === "image/jpeg" ? "placeholder" : (resp.body ?? "-"),
      control: one(resp.headers, "cache-control") ?? "-", modified: one(resp.headers, "last-modified") ?? "-",
      file: dis === undefined ? "-" : /^attachment; filename="(.*)"$/.exec(dis) && type === "text/csv; charset=utf-8" ? /^attachment; filename="(.*)"$/.exec(dis)![1] : `odd ${dis} ${type}`,
      keyed: one(resp.headers, "x-api-key") !== undefined || one(resp.headers, "x-amzn-remapped-host") !== undefined, asked,
    });
  };
  return {
    reset(init) { stack = init[0]; cache = new Map(); now = 0; },
    async step(a) {
      const m = built();
      if (a.op === "build") return { kind: "built", refused: m.refused !== undefined };
      if (a.op === "tick") { now += a.s; return { kind: "none" }; }
      if (m.refused) throw new Error(m.refused);
      return { kind: "answer", a: await ask(m, a.r) };
    },
  };
};
/** the access control lists of a description */
function lists(s: any): any[] {
  const file = path.join(TMP, "edge-stack.cjs");
  delete req.cache[file];
  const m = req(file);
  const app = new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() });
  const stack = new m.CloudfrontCdkStack(app, "S", { env: { region: "us-east-1", account: "123456789012" } });
  const rule = (w: any): any => {
    const [a, b, c, d, e] = w.l.map((x: number) => (x < 0 ? undefined : x)), by = e === undefined ? undefined : { path: /^\/slow\/.*$/, limit: e };
    const without = w.without.length ? Object.fromEntries([...new Set(w.without.map((x: any) => x[0]))].map((g) => [g, w.without.filter((x: any) => x[0] === g).map((x: any) => x[1])])) : undefined;
    return w.mode === "all" ? m.WafRules.per5min(a, b, c, d, by, without) : w.mode === "count" ? m.WafRules.per5minCount(a, b, c, d, by) : m.WafRules.per5minWithSelectedCommon(w.groups, a, b, c, d, without);
  };
  for (const w of s.rules) stack.withAclRule(rule(w));
  s.dists.forEach((d: any, i: number) => stack.withDistribution(`d${i}`, "arn:aws:acm:us-east-1:123456789012:certificate/c", (b: any) => {
    b.withAliasName(`d${i}.fi`).withLogConfig("arn:log").withBehaviors(m.Behavior.nginxPlain("*", "web.fi"));
    if (d.length) b.withAclRule(...d.map(rule));
  }));
  const rs = app.synth({ skipValidation: true }).getStackByName("S").template.Resources;
  return s.dists.map((_: any, i: number) => {
    const dist: any = Object.values(rs).find((x: any) => x.Type === "AWS::CloudFront::Distribution" && x.Properties.DistributionConfig.Aliases.includes(`d${i}.fi`));
    const acl = rs[dist.Properties.DistributionConfig.WebACLId["Fn::GetAtt"][0]].Properties, l = lower(acl);
    l.customResponseBodies = Object.fromEntries(Object.entries(acl.CustomResponseBodies ?? {}).map(([k, v]) => [k, lower(v)]));
    return l;
  });
}
function limiter(): Adapter {
  const made = new Map<string, any>();
  let stack: any;
  return {
    reset(init) { stack = init[0]; },
    step(a) {
      const k = JSON.stringify(stack);
      if (!made.has(k)) { try { made.set(k, { acls: lists(stack) }); } catch (e) { made.set(k, { refused: (e as Error).message }); } }
      const m = made.get(k);
      if (a.op === "build") return { kind: "built", refused: m.refused !== undefined };
      if (m.refused) throw new Error(m.refused);
      const waf = new Waf(m.acls[a.d - 1], {}), none = { group: "-", rule: "-" };
      if (a.op === "threat") return { kind: "threat", stopped: (waf.ask({ ip: "1", path: "/a", user: "named", size: 0, threat: { group: `AWSManagedRules${a.g}`, rule: a.rule } }) as any).verdict !== "allow" };
      let passed = 0, counted = 0;
      const limits = new Set<number>();
      for (let i = 0; i < a.b.n; i++) {
        const v = waf.ask({ ip: "1", path: a.b.paths[i % a.b.paths.length], user: a.b.user, size: 0, threat: none }) as any;
        counted += v.counted.length;
        if (v.verdict === "allow") passed++; else limits.add(v.status === 429 ? Number(/limited to (\d+) requests/.exec(v.body)?.[1]) : -1);
      }
      return { kind: "burst", passed, counted, limits: [...limits] };
    },
    match: (e: any, o: any) => (e.kind === "burst" && o.kind === "burst" ? same({ ...e, limits: [...e.limits].sort() }, { ...o, limits: [...o.limits].sort() }) : same(e, o)),
  };
}
main({ limits: { adapter: limiter }, building: { adapter: adapterOf(false) }, flow: { adapter: adapterOf(false) }, cache: { adapter: adapterOf(true) } });
