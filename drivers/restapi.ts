import { captureStdout, main, same, type Adapter } from "./rt.js";
import { App, Size, Stack } from "aws-cdk-lib";
import { EndpointType, JsonSchemaType, MethodLoggingLevel, MockIntegration, RestApi as PlainApi, type IResource, type Resource, type RestApi } from "aws-cdk-lib/aws-apigateway";
import { add401Support, createRestApi, DigitrafficRestApi, setReturnCodeForMissingAuthenticationToken } from "@lib/aws/infra/stack/rest-api.js";
import { DocumentationPart } from "@lib/aws/infra/documentation.js";
import { DigitrafficStack } from "@lib/aws/infra/stack/stack.js";
import { addServiceModel, addSimpleServiceModel } from "@lib/utils/api-model.js";

captureStdout(() => {});
console.info = () => {};
const ADDR = ["10.1.1.1", "192.168.5.5", "8.8.8.8"], VERBS = ["GET", "HEAD", "OPTIONS", "POST"], SENT = ["none", "right", "second", "stranger"], PATHS = ["/a", "/a/b", "/a/b/{c}", "/d", "/nothing"];
const inCidr = (ip: string, cidr: string): boolean => {
  const n = (x: string): number => x.split(".").reduce((a, b) => a * 256 + Number(b), 0);
  const [b, m] = cidr.split("/"); const size = 2 ** (32 - Number(m ?? 32));
  return Math.floor(n(ip) / size) === Math.floor(n(b!) / size);
};

function adapter(): Adapter {
  let stack: any, api: RestApi, maker: string, plans: string[], uses: number;
  const res = (): Record<string, any> => (stack as Stack).resolve(stack._toCloudFormation()).Resources;
  const of = (rs: Record<string, any>, t: string): [string, any][] => Object.entries(rs).filter(([, r]) => r.Type === t).map(([k, r]) => [k, r.Properties]);
  const ref = (v: any): string => v?.Ref ?? v?.["Fn::GetAtt"]?.[0] ?? String(v);
  const find = (p: string): IResource => p.split("/").filter(Boolean).reduce((r: IResource, s) => r.getResource(s)!, api.root);
  /** the keys that work: those of a usage plan of the API's stage */
  const working = (rs: Record<string, any>): string[] => {
    const apiId = of(rs, "AWS::ApiGateway::RestApi")[0]![0];
    const stages = of(rs, "AWS::ApiGateway::Stage").filter(([, p]) => ref(p.RestApiId) === apiId).map(([k]) => k);
    const good = of(rs, "AWS::ApiGateway::UsagePlan").filter(([, p]) => p.ApiStages?.some((s: any) => ref(s.ApiId) === apiId && stages.includes(ref(s.Stage))) && !p.Throttle && !p.Quota).map(([k]) => k);
    return of(rs, "AWS::ApiGateway::UsagePlanKey").filter(([, p]) => good.includes(ref(p.UsagePlanId)) && p.KeyType === "API_KEY").map(([, p]) => ref(p.KeyId)).filter((k) => rs[k]?.Type === "AWS::ApiGateway::ApiKey" && rs[k].Properties.Enabled !== false);
  };
  const allowed = (policy: any, ip: string): boolean => {
    let ok = false;
    for (const s of policy?.Statement ?? []) {
      const who = s.Principal === "*" || s.Principal?.AWS === "*";
      const what = [s.Action].flat().some((x: string) => ["execute-api:Invoke", "execute-api:*", "*"].includes(x)) && [s.Resource].flat().includes("*");
      const cond = !s.Condition || Object.entries(s.Condition).every(([op, c]: any) => op === "IpAddress" && [c["aws:SourceIp"]].flat().some((x: string) => inCidr(ip, x)));
      if (s.Condition && Object.keys(s.Condition).some((k) => k !== "IpAddress")) throw new Error(`unknown condition ${JSON.stringify(s.Condition)}`);
      if (who && what && cond) { if (s.Effect === "Deny") return false; ok = true; }
    }
    return ok;
  };
  const probe = (): unknown => {
    const rs = res();
    const [apiId, a] = of(rs, "AWS::ApiGateway::RestApi")[0]!;
    const pathOf = new Map<string, string>([["root", "/"]]);
    const full = (id: string): string => { const p = rs[id].Properties; const par = p.ParentId?.["Fn::GetAtt"]?.[1] === "RootResourceId" ? "" : full(ref(p.ParentId)); return `${par}/${p.PathPart}`; };
    for (const [k] of of(rs, "AWS::ApiGateway::Resource")) pathOf.set(k, full(k));
    const ms = of(rs, "AWS::ApiGateway::Method").map(([, p]) => ({ p, path: pathOf.get(ref(p.ResourceId)) ?? "/" }));
    const gw = of(rs, "AWS::ApiGateway::GatewayResponse").find(([, p]) => p.ResponseType === "MISSING_AUTHENTICATION_TOKEN" && ref(p.RestApiId) === apiId)?.[1];
    const good = working(rs);
    let notFound = "Not Found", preflight = "any origin; Content-Type,X-Amz-Date,Authorization,X-Api-Key,X-Amz-Security-Token,Digitraffic-User; OPTIONS,GET,HEAD";
    const answer = (ip: string, path: string, v: string, k: string): number => {
      if (!allowed(a.Policy, ip)) return 403;
      const m = ms.find((x) => x.path === path && x.p.HttpMethod === v)?.p;
      if (!m) { try { notFound = gw ? JSON.parse(gw.ResponseTemplates["application/json"]).message : "Missing Authentication Token"; } catch { notFound = "not JSON"; } return Number(gw?.StatusCode ?? 403); }
      const key = k === "right" ? plans[0] : k === "second" ? plans[1] : k === "stranger" ? "nobody's" : undefined;
      if (m.ApiKeyRequired === true && !(key && good.includes(key))) return 403;
      const ir = m.Integration.IntegrationResponses[0];
      if (v === "OPTIONS") {
        const h = (n: string): string => String(ir.ResponseParameters[`method.response.header.${n}`] ?? "").replace(/^'|'$/g, "");
        const got = `${h("Access-Control-Allow-Origin") === "*" ? "any origin" : h("Access-Control-Allow-Origin")}; ${h("Access-Control-Allow-Headers")}; ${h("Access-Control-Allow-Methods")}`;
        if (got !== preflight) preflight = got;
        if (!Object.keys(ir.ResponseParameters).every((n) => n in (m.MethodResponses[0].ResponseParameters ?? {}))) preflight = "undeclared headers";
      }
      return Number(ir.StatusCode);
    };
    const table = ADDR.map((ip) => PATHS.map((p) => VERBS.map((v) => SENT.map((k) => answer(ip, p, v, k)))));
    const st = of(rs, "AWS::ApiGateway::Stage")[0]?.[1];
    const flat = (v: any): string => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.Ref ?? JSON.stringify(v));
    const host = maker === "function" ? "-" : flat((stack as Stack).resolve((api as DigitrafficRestApi).hostname()));
    return { compression: a.MinimumCompressionSize ?? 0, host: host === `${apiId}.execute-api.eu-north-1.amazonaws.com` ? "this API in its region" : host, table, notFound, preflight, endpoint: a.EndpointConfiguration?.Types?.join(), logging: st?.MethodSettings?.find((s: any) => s.HttpMethod === "*" && s.ResourcePath === "/*")?.LoggingLevel };
  };
  return {
    reset([mk, ips, docs]) {
      maker = mk; plans = []; uses = 0;
      const feats = docs === "default" ? {} : { stackFeatures: { enableDocumentation: docs === "on" } };
      stack = new DigitrafficStack(new App(), "S", { shortName: "T", alarmTopicArn: "a", warningTopicArn: "w", production: false, trafficType: "Road" as any, stackProps: { env: { region: "eu-north-1", account: "1" } }, ...feats } as any);
      const list = ips === "all" ? undefined : ips === "two" ? ["10.0.0.0/8", "192.168.5.5"] : ips === "many" ? [...Array.from({ length: 20 }, (_, i) => `172.16.${i}.0/24`), "192.168.5.0/31", "192.168.5.4/31", "10.0.0.0/8"] : [];
      api = maker === "configured" ? new DigitrafficRestApi(stack, "api", "The API", list, { endpointTypes: [EndpointType.EDGE], deployOptions: { loggingLevel: MethodLoggingLevel.INFO }, minCompressionSize: Size.bytes(1000) }) : maker === "class" ? new DigitrafficRestApi(stack, "api", "The API", list) : createRestApi(stack, "api", "The API", list);
    },
    match(e, o: any) {
      if (e?.shown) { const f = (x: any) => (Array.isArray(x) ? x : Object.values(x)).map((y: any) => JSON.stringify(Object.fromEntries(Object.entries(y).sort()))).sort(); return same(f(e.shown), f(o.shown)) ? true : JSON.stringify([f(e.shown), f(o.shown)]); }
      return same(e, o);
    },
    step(a) {
      switch (a.op) {
        case "resource": {
          const seg = a.p.split("/").at(-1)!, parent = a.p.split("/").slice(0, -1).join("/");
          const r = a.p === "/a/b" ? (api as DigitrafficRestApi).addResourceWithCorsOptionsSubTree(find(parent) as Resource, seg) : find(parent).addResource(seg);
          if (a.p === "/d") (api as DigitrafficRestApi).addCorsOptions(r);
          for (const v of ["GET", "HEAD"]) r.addMethod(v, new MockIntegration({ integrationResponses: [{ statusCode: "200" }] }), { apiKeyRequired: a.key === "key", methodResponses: [{ statusCode: "200" }] });
          return "added";
        }
        case "plan": {
          const x = api as DigitrafficRestApi;
          const before = new Set(Object.keys(res()));
          const id = a.style === "old" ? x.createUsagePlan(`${a.nm}-id`, a.nm) : x.createUsagePlanV2(a.nm, a.style === "valued" ? "secret-value" : undefined);
          const rs = res();
          const keyId = ref((stack as Stack).resolve(id)), key = rs[keyId]?.Properties ?? {};
          const plan = Object.entries(rs).find(([k, r]) => !before.has(k) && r.Type === "AWS::ApiGateway::UsagePlan")?.[1].Properties;
          const distinct = !plans.includes(keyId); plans.push(keyId);
          return { keyName: key.Name ?? "generated", plan: plan?.UsagePlanName, value: key.Value ?? "generated", stage: working(rs).includes(keyId) ? "this API's" : "none", distinct };
        }
        case "probe": return probe();
        case "document": {
          const parts = a.ks.map((k: string) => (k === "method" ? DocumentationPart.method(["T1", "T2"], "m", "Sums up") : k === "oldMethod" ? DocumentationPart.method(["T1", "T2"], "m", "Sums up").deprecated("Gone soon") : k === "query" ? DocumentationPart.queryParameter("q", "Says it")
            : k === "oldQuery" ? DocumentationPart.queryParameter("oq", "Says it").deprecated("Gone soon") : DocumentationPart.pathParameter("c", "Says it")));
          (api as DigitrafficRestApi).documentResource(find(a.p) as Resource, ...parts);
          const rs = res(), apiId = of(rs, "AWS::ApiGateway::RestApi")[0]![0];
          return { shown: of(rs, "AWS::ApiGateway::DocumentationPart").map(([, p]) => { const d = JSON.parse(p.Properties); return { type: ref(p.RestApiId) === apiId ? p.Location.Type : "of another API", path: p.Location.Path, name: p.Location.Name ?? "-", summary: d.summary ?? "-", description: d.description ?? "-", tags: d.tags ?? [], old: d.deprecated === true }; }) };
        }
        case "model": {
          const x = api as DigitrafficRestApi, nm = `Model${uses++}`, schema = { type: JsonSchemaType.OBJECT, properties: { x: { type: JsonSchemaType.STRING } } };
          const m: any = a.k === "json" ? x.addJsonModel(nm, schema) : a.k === "csv" ? x.addCSVModel(nm) : a.k === "service" ? addServiceModel(nm, api, schema) : addSimpleServiceModel(nm, api);
          const rs = res(), apiId = of(rs, "AWS::ApiGateway::RestApi")[0]![0];
          const hit = of(rs, "AWS::ApiGateway::Model").find(([, p]) => p.Name === nm);
          const r = m.modelReference === undefined ? "-" : JSON.stringify((stack as Stack).resolve(m.modelReference));
          const want = JSON.stringify({ "Fn::Join": ["", ["https://apigateway.amazonaws.com/restapis/", { Ref: apiId }, "/models/", { Ref: hit?.[0] }]] });
          const s = hit?.[1].Schema ?? {};
          return { type: hit?.[1].ContentType, schema: s.properties?.x?.type === "string" && s.type === "object" ? "as given" : Object.keys(s).filter((k) => k !== "$schema").length === 0 ? "empty" : "else", ref: r === "-" ? "-" : r === want ? "to this model" : r };
        }
        case "unauthorized": {
          if (!(api as any).has401) { (api as any).has401 = true; add401Support(api, stack); }
          const g = of(res(), "AWS::ApiGateway::GatewayResponse").find(([, p]) => p.ResponseType === "UNAUTHORIZED")?.[1];
          return { status: Number(g?.StatusCode), ask: g?.ResponseParameters?.["gatewayresponse.header.WWW-Authenticate"] };
        }
        case "missing": {
          const other = new Stack(new App(), "O"), plain = new PlainApi(other, "plain");
          setReturnCodeForMissingAuthenticationToken(a.code, JSON.stringify(a.text), plain, other);
          const g = of(other.resolve((other as any)._toCloudFormation()).Resources, "AWS::ApiGateway::GatewayResponse").find(([, p]) => p.ResponseType === "MISSING_AUTHENTICATION_TOKEN")?.[1];
          return { status: Number(g?.StatusCode), message: JSON.parse(g?.ResponseTemplates?.["application/json"]).message };
        }
        default: {
          const x = api as DigitrafficRestApi;
          const p: any = {};
          if (a.key !== "-") p.apiKeyId = "given";
          if (a.nm !== "-") p.exportName = a.nm;
          // an export is made only once: on another stack with the same keys
          const other: any = new DigitrafficStack(new App(), "S", { shortName: "T", alarmTopicArn: "a", warningTopicArn: "w", production: false, trafficType: "Road" as any, stackProps: {} } as any);
          const y = new DigitrafficRestApi(other, "api", "The API");
          const ids: string[] = [];
          plans.forEach((_, i) => ids.push(styles[i]!.style === "old" ? y.createUsagePlan(`${styles[i]!.nm}-id`, styles[i]!.nm) : y.createUsagePlanV2(styles[i]!.nm)));
          void x;
          try { if (Object.keys(p).length) y.exportEndpoint(p); else y.exportEndpoint(); } catch { return { refused: true }; }
          const rs = (other as Stack).resolve(other._toCloudFormation()).Resources;
          const sp = of(rs, "AWS::SSM::Parameter").map(([, q]) => q);
          const u = sp.find((q) => /endpointUrl$/.test(q.Name)), k = sp.find((q) => /apiKeyId$/.test(q.Name));
          const at = ids.findIndex((i) => ref((other as Stack).resolve(i)) === ref(k?.Value));
          const url = JSON.stringify((other as Stack).resolve(y.url));
          return { refused: false, url: u?.Name, keyAt: k?.Name, key: at >= 0 ? styles[at]!.nm : k?.Value, urlOf: JSON.stringify(u?.Value) === url && sp.length === 2 ? "this API" : JSON.stringify(u?.Value) };
        }
      }
    },
  };
}
let styles: { style: string; nm: string }[] = [];
const wrapped = (): Adapter => {
  const ad = adapter();
  return { ...ad, reset(i) { styles = []; return ad.reset(i); }, step(a) { const r = ad.step(a); if (a.op === "plan") styles.push({ style: a.style, nm: a.nm }); return r; } };
};
main({ gate: { adapter: wrapped }, docs: { adapter: wrapped }, export: { adapter: wrapped } });
