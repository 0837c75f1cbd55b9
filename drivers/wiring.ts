import { captureStdout, main, same, type Adapter } from "./rt.js";
import { App, Duration, LegacyStackSynthesizer, Stack } from "aws-cdk-lib";
import { CfnResource } from "aws-cdk-lib";
import { Code, Function as Fn, Runtime } from "aws-cdk-lib/aws-lambda";
import { Schedule } from "aws-cdk-lib/aws-events";
import { Topic } from "aws-cdk-lib/aws-sns";
import { Bucket } from "aws-cdk-lib/aws-s3";
import { Effect } from "aws-cdk-lib/aws-iam";
import { RestApi, MockIntegration } from "aws-cdk-lib/aws-apigateway";
import { Scheduler } from "@lib/aws/infra/scheduler.js";
import { DigitrafficSecurityRule } from "@lib/aws/infra/security-rule.js";
import { grantOACRights, grantOAIRights } from "@lib/aws/infra/bucket-policy.js";
import { createSubscription, DigitrafficLogSubscriptions } from "@lib/aws/infra/stack/subscription.js";
import { createDefaultUsagePlan, createUsagePlan } from "@lib/aws/infra/usage-plans.js";
import { createLambdaLogGroup } from "@lib/aws/infra/stack/lambda-log-group.js";
import { addDocumentation, addQueryParameterDescription, addTags, addTagsAndSummary } from "@lib/aws/infra/documentation.js";
import { DigitrafficStack } from "@lib/aws/infra/stack/stack.js";

captureStdout(() => {});
console.warn = () => {}; console.error = () => {};
void CfnResource;
const CALLERS: [string, string][] = [["cloudfront", "dist-1"], ["cloudfront", "dist-2"], ["cloudfront", "-"], ["user", "user-1"], ["user", "user-2"], ["anyone", "-"], ["lambda", "dist-1"]];
const ACTS = ["s3:GetObject", "s3:GetObjectAcl", "s3:PutObject", "s3:ListBucket"], THINGS = ["", "/a.json", "/private/x", "/public/x"];
const conf = (to: string): any => ({ shortName: "Short", alarmTopicArn: "a", warningTopicArn: "w", production: false, trafficType: "Road", stackProps: {}, ...(to === "-" ? {} : { logsDestinationArn: to }) });
const wild = (p: string, v: string): boolean => new RegExp(`^${p.split("*").map((x) => x.replace(/[.?+^$[\]\\(){}|-]/g, "\\$&")).join(".*")}$`).test(v);
const list = (x: any): any[] => (x === undefined ? [] : Array.isArray(x) ? x : [x]);
function adapter(): Adapter {
  let mode: string, made: any[];
  const build = (): { t: any; stack: Stack; id: (c: any) => string } => {
    const app = new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() });
    // every stack of log subscriptions has one destination of its own
    const stack: Stack = mode === "group" ? new Stack(app, "P") : new DigitrafficStack(app, "S", conf("-"));
    return { t: undefined, stack, id: (c: any) => stack.resolve(c) };
  };
  const res = (s: Stack): Record<string, any> => (s.node.root as App).synth({ skipValidation: true }).getStackByName(s.stackName).template.Resources ?? {};
  const of = (rs: Record<string, any>, t: string): [string, any, any][] => Object.entries(rs).filter(([, r]) => r.Type === t).map(([k, r]) => [k, r.Properties, r]);
  const ref = (v: any): string => (typeof v === "string" ? v : v?.Ref ?? v?.["Fn::GetAtt"]?.[0] ?? v?.["Fn::Join"]?.[1].map(ref).join(v["Fn::Join"][0]) ?? JSON.stringify(v));
  const fns = (stack: Stack): Record<string, Fn> => Object.fromEntries(["f1", "f2"].map((n) => [n, Object.assign(new Fn(stack, n, { functionName: n, code: Code.fromInline("x"), handler: "i.h", runtime: Runtime.NODEJS_22_X }), { givenName: n })]));
  const minutes = (e: string): number => { const m = /^rate\((\d+) (minute|minutes|hour|hours|day|days)\)$/.exec(e); if (!m) return 0; if ((m[1] === "1") === m[2]!.endsWith("s")) return -1; return Number(m[1]) * (m[2]!.startsWith("m") ? 1 : m[2]!.startsWith("h") ? 60 : 1440); };
  const run: Record<string, () => unknown> = {
    schedule() {
      const { stack } = build(), f = fns(stack);
      for (const x of made) {
        const l = f[x.fn];
        if (x.kind === "minute") Scheduler.everyMinute(stack, x.name, l);
        else if (x.kind === "minutes") Scheduler.everyMinutes(stack, x.name, x.count, l);
        else if (x.kind === "hour") Scheduler.everyHour(stack, x.name, l);
        else if (x.kind === "day") Scheduler.everyDay(stack, x.name, l);
        else if (x.kind === "every") Scheduler.every(stack, x.name, x.unit === "minute" ? Duration.minutes(x.count) : x.unit === "hour" ? Duration.hours(x.count) : Duration.days(x.count), l);
        else new Scheduler(stack, x.name, Schedule.expression(x.unit), l);
      }
      const rs = res(stack);
      return { kind: "runs", rules: of(rs, "AWS::Events::Rule").map(([id, p]) => {
        const to = (p.Targets ?? []).map((t: any) => ref(t.Arn));
        const ok = to.every((k: string) => of(rs, "AWS::Lambda::Permission").some(([, q]) => ref(q.FunctionName) === k && q.Principal === "events.amazonaws.com" && ref(q.SourceArn) === id && q.Action === "lambda:InvokeFunction"));
        return [p.State === "ENABLED" ? p.Name : `off ${p.Name}`, minutes(p.ScheduleExpression), p.ScheduleExpression.startsWith("cron") ? p.ScheduleExpression : "-", to.length ? (ok ? to.map((k: string) => rs[k].Properties.FunctionName).join() : "not allowed") : "-"];
      }) };
    },
    grant() {
      const { stack } = build(), bucket = new Bucket(stack, "b");
      for (const g of made) {
        const c = { bucket, ...(g.effect === "-" ? {} : { effect: g.effect === "deny" ? Effect.DENY : Effect.ALLOW }), ...(g.actions.length ? { actions: g.actions } : {}), ...(g.resources.length ? { resources: g.resources.map((r: string) => (r === "bucket" ? bucket.bucketArn : r === "public" ? `${bucket.bucketArn}/public/*` : `${bucket.bucketArn}/a.json`)) } : {}) };
        if (g.way === "oac") grantOACRights({ ...c, distributionArn: `arn:aws:cloudfront::1:distribution/${g.who}` }); else grantOAIRights({ ...c, canonicalUserId: g.who });
      }
      const rs = res(stack), id = of(rs, "AWS::S3::Bucket")[0]![0];
      const st = of(rs, "AWS::S3::BucketPolicy").filter(([, p]) => ref(p.Bucket) === id).flatMap(([, p]) => p.PolicyDocument.Statement);
      // the policy, evaluated: an explicit denial wins over any allowance
      const hits = (s: any, [is, whose]: [string, string], a: string, t: string): boolean => {
        const P = s.Principal;
        const who = P === "*" || list(P?.AWS).includes("*") || (is === "cloudfront" && list(P?.Service).includes("cloudfront.amazonaws.com")) || (is === "lambda" && list(P?.Service).includes("lambda.amazonaws.com")) || (is === "user" && list(P?.CanonicalUser).includes(whose));
        const cond = Object.entries(s.Condition ?? {}).every(([op, kv]: any) => Object.entries(kv).every(([k, v]) => { const src = whose === "-" || is === "user" ? "" : `arn:aws:cloudfront::1:distribution/${whose}`; return k.toLowerCase() === "aws:sourcearn" && (op === "StringEquals" || op === "ArnEquals" ? list(v).includes(src) : op === "StringLike" || op === "ArnLike" ? list(v).some((y) => wild(y, src)) : false); }));
        return who && cond && list(s.Action).some((x) => wild(x, a)) && list(s.Resource).some((x) => wild(ref(x), id + t));
      };
      const may: unknown[] = [];
      for (const c of CALLERS) for (const a of ACTS) for (const t of THINGS) if (st.some((s) => s.Effect === "Allow" && hits(s, c, a, t)) && !st.some((s) => s.Effect === "Deny" && hits(s, c, a, t))) may.push([...c, a, t]);
      return { kind: "access", may };
    },
    subscribe() {
      const out: unknown[] = [];
      for (const s of made) { // each in a stack of its own
        const stack = new DigitrafficStack(new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() }), "S", conf(s.via === "stack" ? s.to : "-")), f = fns(stack);
        const ls = s.fns.map((n: string) => f[n]);
        if (s.via === "stack") new DigitrafficLogSubscriptions(stack, ...ls);
        else { const r = createSubscription(ls[0], s.fns[0], s.via === "null" ? (null as any) : s.to === "-" ? undefined : s.to, stack); if ((r === undefined) !== (s.to === "-")) out.push("returned wrong"); }
        const rs = res(stack);
        for (const [, p, r] of of(rs, "AWS::Logs::SubscriptionFilter")) {
          const group = ref(p.LogGroupName), fn = Object.entries(f).find(([n, l]) => group.includes(n) || group === ref((stack as Stack).resolve(l.logGroup.logGroupName)));
          const dep = fn && list(r.DependsOn).includes(ref((stack as Stack).resolve((fn[1].node.defaultChild as any).ref)));
          out.push([fn?.[0] ?? group, p.DestinationArn, p.FilterPattern === "" ? "everything" : p.FilterPattern, dep ? "after" : "before"]);
        }
      }
      return { kind: "streams", of: [...new Map(out.map((x) => [JSON.stringify(x), x])).values()] };
    },
    plan() {
      const { stack } = build();
      const api = new RestApi(stack, "api", { restApiName: "Api" });
      api.root.addMethod("GET", new MockIntegration());
      const keys: any[] = [];
      for (const p of made) keys.push(p.kind === "named" ? createDefaultUsagePlan(api, p.name, p.value === "-" ? undefined : p.value) : createUsagePlan(api, `key-${p.id}`, p.name));
      const rs = res(stack), apiId = of(rs, "AWS::ApiGateway::RestApi")[0]![0], stage = of(rs, "AWS::ApiGateway::Stage")[0]![0];
      const plans = of(rs, "AWS::ApiGateway::UsagePlan"), links = of(rs, "AWS::ApiGateway::UsagePlanKey");
      let own = links.length === plans.length && of(rs, "AWS::ApiGateway::ApiKey").length === made.length;
      const used = new Set<string>();
      const list2 = plans.map(([id, p], i) => {
        const mine = links.filter(([, l]) => ref(l.UsagePlanId) === id), k = ref(mine[0]?.[1].KeyId), key = rs[k]?.Properties;
        if (mine.length !== 1 || used.has(k) || ref(stack.resolve(keys[i].keyId)) !== k || mine[0]![1].KeyType !== "API_KEY") own = false;
        used.add(k);
        const st = p.ApiStages ?? [];
        return [p.UsagePlanName, key?.Name ?? "-", key?.Value ?? "-", st.length === 1 && ref(st[0].ApiId) === apiId && ref(st[0].Stage) === stage && key?.Enabled !== false ? "deployed" : "nowhere"];
      });
      return { kind: "plans", of: list2, own };
    },
    group() {
      const plain = new Stack(new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() }), "P"), dt = new DigitrafficStack(new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() }), "S", conf("-"));
      const rs: any[] = [];
      const seen: Record<string, number> = {};
      void seen;
      const all: [string, number][] = [];
      for (const g of made) {
        const stack = g.stack === "digitraffic" ? new DigitrafficStack(new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() }), "S", conf("-")) : new Stack(new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer() }), "P");
        createLambdaLogGroup({ stack: stack as any, functionName: g.fn, shortName: g.short, ...(g.days ? { retention: g.days } : {}) } as any);
        for (const [, p] of of(res(stack), "AWS::Logs::LogGroup")) all.push([p.LogGroupName, p.RetentionInDays]);
      }
      void plain; void dt; void rs;
      return { kind: "groups", of: [...new Map(all.map((x) => [JSON.stringify(x), x])).values()] };
    },
    document() {
      const { stack } = build();
      const api = new RestApi(stack, "api", { restApiName: "Api" });
      const r = api.root.addResource("v1").addResource("things");
      r.addMethod("GET", new MockIntegration());
      for (const d of made) {
        if (d.kind === "query") addQueryParameterDescription(d.name, d.text, r, stack);
        else if (d.kind === "tags") addTags(d.name, d.tags, r, stack);
        else if (d.kind === "summary") addTagsAndSummary(d.name, d.tags, d.text, r, stack);
        else addDocumentation(d.name, { operationName: d.text }, r, stack);
      }
      const rs = res(stack), apiId = of(rs, "AWS::ApiGateway::RestApi")[0]![0];
      return { kind: "documents", of: of(rs, "AWS::ApiGateway::DocumentationPart").map(([, p]) => ({ type: ref(p.RestApiId) === apiId ? p.Location.Type : "other api", name: p.Location.Name ?? "-", path: p.Location.Path, says: Object.entries(JSON.parse(p.Properties)) })) };
    },
  };
  let rule: any;
  const finding = (f: any): unknown => {
    if (!rule) {
      const { stack } = build(), topic = new Topic(stack, "t");
      new DigitrafficSecurityRule(stack, topic);
      const rs = res(stack), rules = of(rs, "AWS::Events::Rule"), id = of(rs, "AWS::SNS::Topic")[0]![0];
      const p = rules[0]![1];
      const may = of(rs, "AWS::SNS::TopicPolicy").flatMap(([, q]) => q.PolicyDocument.Statement).some((s: any) => s.Effect === "Allow" && s.Principal.Service === "events.amazonaws.com" && s.Action === "sns:Publish" && ref(s.Resource) === id);
      rule = { pattern: p.EventPattern, ok: rules.length === 1 && p.State === "ENABLED" && p.Targets.length === 1 && ref(p.Targets[0].Arn) === id && may };
    }
    const event = { source: f.source, "detail-type": f.type, detail: { findings: [{ Compliance: { Status: f.compliance }, Workflow: { Status: f.workflow }, Severity: { Label: f.severity }, RecordState: "ACTIVE" }] } };
    const match = (p: any, v: any): boolean => (Array.isArray(p) ? p.includes(v) : Array.isArray(v) ? v.some((x) => match(p, x)) : Object.entries(p).every(([k, q]) => match(q, v?.[k])));
    return { kind: "finding", told: rule.ok && match(rule.pattern, event) };
  };
  const flat = (o: any): any => { const r = { ...o }; for (const k of ["rules", "may", "of"]) if (Array.isArray(r[k])) r[k] = r[k].map((x: any) => JSON.stringify(x?.says ? { n: x.name, p: x.path, t: x.type, s: x.says.map((y: any) => JSON.stringify(y)).sort() } : x)).sort(); return r; };
  return {
    match: (e, o) => same(flat(e), flat(o)),
    reset(init) { mode = init[0]; made = [...init[1]]; },
    step(a) {
      if (a.op === "finding") return finding(a.x);
      made.push(a.x);
      return run[a.op]!();
    },
  };
}
main({ schedules: { adapter }, findings: { adapter }, grants: { adapter }, "grants-together": { adapter }, logs: { adapter }, plans: { adapter }, documents: { adapter } });
