import fs from "node:fs";
import path from "node:path";
import zlib from "node:zlib";
import { captureStdout, main, same, type Adapter } from "./rt.js";
import { FakePg } from "./fakepg.js";
import { S } from "./stubs/synthetics.js";
import { requests } from "./stubs/secrets-manager.js";
import { App, Duration, Stack } from "aws-cdk-lib";
import { Schedule } from "aws-cdk-lib/aws-events";
import { Runtime, RuntimeFamily, Schedule as CanarySchedule } from "aws-cdk-lib/aws-synthetics";
import { DigitrafficStack } from "@lib/aws/infra/stack/stack.js";
import { DigitrafficRestApi } from "@lib/aws/infra/stack/rest-api.js";
import { UrlCanary } from "@lib/aws/infra/canaries/url-canary.js";
import { DatabaseCanary } from "@lib/aws/infra/canaries/database-canary.js";
import { DigitrafficCanaryRole } from "@lib/aws/infra/canaries/canary-role.js";
import { ContentChecker, ContentTypeChecker, GeoJsonChecker, HeaderChecker, ResponseChecker, UrlChecker } from "@lib/aws/infra/canaries/url-checker.js";
import { DatabaseCountChecker } from "@lib/aws/infra/canaries/database-checker.js";

captureStdout(() => {});
console.info = () => {}; console.warn = () => {}; console.error = () => {};
void Schedule;
process.env.AWS_REGION = "eu-west-1"; process.env.SECRET_ID = "the-secret"; process.env.DB_APPLICATION = "canary";
const dir = path.join(process.env.VERIF_TMP!, "canary");
fs.mkdirSync(path.join(dir, "dist/nodejs/node_modules"), { recursive: true });
for (const f of ["thing.js", "thing-db.js"]) fs.writeFileSync(path.join(dir, "dist/nodejs/node_modules", f), "exports.handler = 1;");
process.chdir(dir);

const BODY: Record<string, string> = {
  array: '["ä","€"]', object: '{"a":1}', text: "no € json", point: '{"type":"Point","coordinates":[1,2]}',
  collection: '{"type":"FeatureCollection","features":[]}',
  "collection of one": '{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"p":"ä"},"geometry":{"type":"Point","coordinates":[0,60.5]}}]}',
  "bad collection": '{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Point","coordinates":["x"]}}]}',
};
const fail = (m: string): never => { throw new Error(m); };
const two = (j: any): void => { if (!(Array.isArray(j) && j.length === 2 && j[0] === "ä" && j[1] === "€")) fail("not two"); };
const euro = (b: string): void => { if (!b.includes("€")) fail("no euro"); };
const CHECK: Record<string, () => any> = {
  "type json": () => ContentTypeChecker.checkContentType("application/json" as any), "type csv": () => ContentTypeChecker.checkContentType("text/csv" as any),
  "two items": () => ContentChecker.checkJson(two), "has euro": () => ContentChecker.checkResponse(euro),
  "json, two items": () => ResponseChecker.forJson().checkJson(two), "csv, has euro": () => ResponseChecker.forCSV().responseChecker(euro),
  jpeg: () => ResponseChecker.forJpeg().check(), geojson: () => GeoJsonChecker.validFeatureCollection(),
  "geojson, one": () => GeoJsonChecker.validFeatureCollection((f) => { if (f.features.length !== 1 || f.features[0]!.properties!.p !== "ä") fail("not one"); }),
  header: () => HeaderChecker.checkHeaderExists("x-thing"), "no header": () => HeaderChecker.checkHeaderMissing("x-thing"),
  "array or object": () => ContentChecker.checkJson(() => {}),
};
let pgAnswers: { count: number; i: number } [] = [], found: number[] = [], asked: string[] = [], where: string[] = [];
void pgAnswers;
const pg = new FakePg({
  accept(c) { where.push(`${c.user} ${c.database}`); return true; },
  async query(c, sql) {
    void c;
    if (!/^select/i.test(sql.trim())) return { tag: sql.trim().split(" ")[0]!.toUpperCase().replace(";", "") };
    asked.push(sql);
    const v = found[asked.length - 1]!;
    if (v === -3) return { error: "broken" };
    if (v === -2) return { fields: [{ name: "count", oid: 20 }], rows: [], tag: "SELECT 0" };
    if (v === -1) return { fields: [{ name: "n", oid: 20 }], rows: [["5"]], tag: "SELECT 1" };
    return { fields: [{ name: "count", oid: 20 }], rows: [[String(v)]], tag: "SELECT 1" };
  },
});
let ready: Promise<unknown> | undefined;
const timeout = <T>(p: Promise<T>, ms: number): Promise<T | "stuck"> => new Promise((res, rej) => { const t = setTimeout(() => res("stuck"), ms); p.then((v) => { clearTimeout(t); res(v); }, (e) => { clearTimeout(t); rej(e); }); });
function adapter(): Adapter {
  let checker: UrlChecker, key: string, plan: string[];
  const deploy = (b: any): unknown => {
    const stack = new DigitrafficStack(new App(), "S", {
      shortName: "Short", alarmTopicArn: "arn:aws:sns:eu-west-1:1:alarm-topic", warningTopicArn: "w", production: false, trafficType: "Road" as any, stackProps: {},
      ...(b.secret ? { secretId: "the-secret" } : {}), ...(b.vpc ? { vpcId: "vpc-1", privateSubnetIds: ["subnet-1", "subnet-2"], availabilityZones: ["a", "b"] } : {}), ...(b.group ? { lambdaDbSgId: "sg-1" } : {}),
    });
    const role = new DigitrafficCanaryRole(stack, "thing");
    if (b.db) role.withDatabaseAccess();
    const al = b.alarm;
    const alarm = al.given ? { alarm: { ...(al.name !== "-" ? { alarmName: al.name } : {}), ...(al.threshold ? { threshold: al.threshold } : {}), ...(al.periods ? { evalutionPeriods: al.periods } : {}), ...(al.topic !== "-" ? { topicArn: `arn:aws:sns:eu-west-1:1:${al.topic}` } : {}) } } : {};
    const extra: any = { ...alarm, ...(b.rate ? { schedule: CanarySchedule.rate(Duration.minutes(b.rate)) } : {}), ...(b.env === "more" ? { canaryEnv: { EXTRA: "yes" } } : b.env === "other host" ? { canaryEnv: { hostname: "other host" } } : {}), ...(b.runtime !== "-" ? { runtime: new Runtime(b.runtime, RuntimeFamily.NODEJS) } : {}) };
    let c: any, api: any;
    if (b.kind === "db") {
      try {
        c = b.via === "v1" ? DatabaseCanary.create(stack, role, { name: "thing", handler: "thing.handler", ...extra }) : b.cname === "-" ? DatabaseCanary.createV2(stack, role, "thing", extra) : DatabaseCanary.createV2(stack, role, "thing", extra, b.cname);
      } catch { return { kind: "refused" }; }
    } else {
      api = new DigitrafficRestApi(stack, "api", "Api");
      for (let i = 0; i < b.keys; i++) api.createUsagePlan(`k${i}`, `plan${i}`);
      c = UrlCanary.create(stack, role, api, { name: "thing", ...(b.secret ? { secret: "the-secret" } : {}), ...(b.invpc ? { inVpc: true } : {}), ...extra }, b.grant ? stack.getSecret() : undefined);
    }
    const rs: Record<string, any> = (stack as Stack).resolve((stack as any)._toCloudFormation()).Resources;
    const of = (t: string): [string, any][] => Object.entries(rs).filter(([, r]) => r.Type === t).map(([k, r]) => [k, r.Properties]);
    const flat = (v: any): string => (typeof v === "string" ? v : v.Ref ?? v["Fn::GetAtt"]?.[0] ?? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]));
    const cans = of("AWS::Synthetics::Canary");
    const [id, p] = cans[0]!;
    const roleId = flat(p.ExecutionRoleArn);
    const apiKeys = of("AWS::ApiGateway::ApiKey").map(([k]) => k);
    const stmts = of("AWS::IAM::Policy").filter(([, x]) => x.Roles.some((y: any) => y.Ref === roleId)).flatMap(([, x]) => x.PolicyDocument.Statement).concat((rs[roleId].Properties.Policies ?? []).flatMap((x: any) => x.PolicyDocument.Statement)).filter((s: any) => s.Effect === "Allow");
    const can = (action: string, on: (r: string) => boolean): boolean => stmts.some((s: any) => [s.Action].flat().some((x: string) => x === action || x === `${action}*` || (x.endsWith("*") && action.startsWith(x.slice(0, -1)))) && [s.Resource].flat().map(flat).some(on));
    const bucket = flat(p.ArtifactS3Location).replace("s3://", "");
    const alarms = of("AWS::CloudWatch::Alarm").map(([, x]) => x);
    const a = alarms[0];
    const dim = a?.Dimensions?.find((d: any) => d.Name === "CanaryName");
    const minutes = (e: string): number => { const m = /^rate\((\d+) (minute|hour)s?\)$/.exec(e); return m ? Number(m[1]) * (m[2] === "hour" ? 60 : 1) : -1; };
    const host = api ? `${flat((stack as Stack).resolve(api.hostname()))}` : "-";
    const params = (rs as any);
    void params;
    return {
      kind: "deployed", name: cans.length === 1 ? p.Name : "several", handler: p.Code.Handler, every: minutes(p.Schedule.Expression), runtime: p.RuntimeVersion, starts: p.StartCanaryAfterCreation !== false,
      env: Object.entries(p.RunConfig?.EnvironmentVariables ?? {}).map(([k, v]: any) => [k, flat(v) === host ? "host of the api" : flat(v) === apiKeys[0] ? "first key" : flat(v)]),
      vpc: p.VPCConfig ? `${p.VPCConfig.VpcId ?? "none"} subnets ${p.VPCConfig.SubnetIds.join(",")}` : "-", groups: p.VPCConfig ? p.VPCConfig.SecurityGroupIds.join(",") : "",
      secret: can("secretsmanager:GetSecretValue", (r) => /:secret:the-secret-\?{6}$/.test(r)) ? ["secret"] : [],
      bucket: can("s3:PutObject", (r) => r.startsWith(bucket)), network: (rs[roleId].Properties.ManagedPolicyArns as any[]).map(flat).some((x) => /AWSLambdaVPCAccessExecutionRole$/.test(x)),
      keys: can("apigateway:GET", (r) => r === "arn:aws:apigateway:*::/apikeys/*"),
      alarm: alarms.length !== 1 ? { count: alarms.length } : {
        name: a.AlarmName, below: a.ComparisonOperator === "LessThanThreshold" ? a.Threshold : -1, periods: a.EvaluationPeriods,
        metric: `${a.MetricName} of ${dim && flat(dim.Value) === id ? p.Name : dim && flat(dim.Value)}${a.Namespace === "CloudWatchSynthetics" ? "" : a.Namespace}`,
        to: (a.AlarmActions ?? []).map(flat).map((x: string) => x.split(":").pop()).join() || "-",
      },
    };
  };
  return {
    match(e, o: any) { const f = (x: any) => ({ ...x, ...(x.env ? { env: [...x.env].map((y: any) => y.join("=")).sort() } : {}) }); return same(f(e), f(o)); },
    async reset(init) {
      const mode = init[0];
      key = init[1]; plan = []; found = []; asked = []; where = []; S.steps = []; S.asked = []; S.timing = "now"; S.failedMetric = false;
      if (mode === "db") { ready ??= pg.listen(); await ready; for (const k of ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"]) delete process.env[k]; }
      if (mode === "created") {
        process.env.hostname = "the.host"; process.env.apiKeyId = key.replace("value of ", ""); process.env.secret = "not the key";
        checker = await UrlChecker.createV2();
      }
      if (mode === "url") checker = new UrlChecker("the.host", key === "-" ? undefined : key);
    },
    async step(a) {
      if (a.op === "query") {
        const kinds = ["expectZero", "expectOne", "expectOneOrMore"] as const;
        const said = kinds.map((k) => { try { DatabaseCountChecker.createForRds()[k]("step", a.q); return "planned"; } catch { return "refused"; } });
        return { kind: said.every((x) => x === said[0]) ? said[0] : said.join() };
      }
      if (a.op === "expect") { plan.push(a.c); return { kind: "planned" }; }
      if (a.op === "deploy") return deploy(a.b);
      if (a.op === "check") {
        const ans = a.a, x = a.x, URL_ = a.w;
        const raw = Buffer.from(BODY[ans.body]!, "utf8");
        const body = ans.enc === "gzip" ? zlib.gzipSync(raw) : raw;
        S.answer = {
          status: ans.status, chunks: ans.cut === "whole" ? [body] : [...body].map((b) => Buffer.from([b])),
          headers: { ...(ans.ctype !== "-" ? { "content-type": ans.ctype } : {}), ...(ans.cors ? { "access-control-allow-origin": "*" } : {}), ...(ans.header ? { "x-thing": "yes" } : {}), ...(ans.enc !== "plain" ? { "content-encoding": "gzip" } : {}) },
        };
        S.steps = []; S.asked = [];
        const all = (x.all ?? []).map((c: string) => CHECK[c]!());
        const both = (...r: [any, any, any]): Promise<void> => all[0](...r);
        const go = (): Promise<unknown> => x.kind === "200" ? checker.expect200(URL_, ...all) : x.kind === "status" ? checker.expectStatus(x.status, URL_, both) : x.kind === "404" ? checker.expect404(URL_) : x.kind === "400" ? checker.expect400(URL_)
          : x.ctype === "application/json" ? checker.expect403WithoutApiKey(URL_) : checker.expect403WithoutApiKey(URL_, x.ctype);
        let ok: boolean | string = true;
        try { if ((await timeout(go(), 2000)) === "stuck") ok = "stuck"; } catch { ok = false; }
        const q = S.asked[0];
        const h = q?.headers ?? {};
        return {
          kind: "checked", asked: S.asked.length !== 1 ? { times: S.asked.length } : { host: q.hostname, path: q.path, method: q.method, protocol: q.protocol, user: h["Digitraffic-User"], key: h["x-api-key"] ?? "-" },
          ok: ok === true && S.steps.some((s) => !s.ok) ? "step failed" : ok, named: S.steps.every((s) => s.name !== "invalid name" && !/tok3n/i.test(s.name)),
        };
      }
      found = a.f; S.timing = a.t; requests.length = 0;
      const c = a.h === "proxy" ? DatabaseCountChecker.createForProxy() : DatabaseCountChecker.createForRds();
      plan.forEach((k, i) => { const sql = `SELECT Count(*) FROM t${i}`; if (k === "zero") c.expectZero(`step ${i}`, sql); else if (k === "one") c.expectOne(`step ${i}`, sql); else c.expectOneOrMore(`step ${i}`, sql); });
      const p = c.expect();
      p.catch(() => {});
      for (let i = 0; i < 20 && !requests.length; i++) await new Promise((r) => setImmediate(r));
      requests[0]?.resolve({ SecretString: JSON.stringify({ username: "the user", password: "p", host: `127.0.0.1:${pg.port}/rw`, ro_host: `127.0.0.1:${pg.port}/ro`, proxy_host: `127.0.0.1:${pg.port}/prw`, proxy_ro_host: `127.0.0.1:${pg.port}/pro` }) });
      let ok: boolean | string;
      try { const v = await timeout(p, 3000); ok = v === "OK" ? true : v; } catch { ok = false; }
      return { kind: "ran", ok, steps: plan.length ? S.steps.map((s, i) => (s.name === `step ${i}` ? s.ok : s.name)) : [], asked: asked.length, from: asked.length === 0 ? "-" : [...new Set(where)].join() };
    },
  };
}
const suite = { adapter };
main({ single: suite, pairs: suite, runs: suite, database: suite, longer: suite, created: suite, deployed: suite });
