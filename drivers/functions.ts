import { captureStdout, main, same, type Adapter } from "./rt.js";
import fs from "node:fs";
import { App, Duration, Stack } from "aws-cdk-lib";
import { Asset } from "aws-cdk-lib/aws-s3-assets";
import { ComparisonOperator } from "aws-cdk-lib/aws-cloudwatch";
import { SecurityGroup } from "aws-cdk-lib/aws-ec2";
import { Effect, PolicyStatement, Role, ServicePrincipal } from "aws-cdk-lib/aws-iam";
import { Architecture, Code, LayerVersion, Runtime } from "aws-cdk-lib/aws-lambda";
import { FunctionBuilder } from "@lib/aws/infra/stack/dt-function.js";
import { DtFunctionAlarms } from "@lib/aws/infra/stack/dt-function-alarms.js";
import { MonitoredFunction, MonitoredDBFunction } from "@lib/aws/infra/stack/monitoredfunction.js";
import { DigitrafficStack } from "@lib/aws/infra/stack/stack.js";
import { TrafficType } from "@lib/types/traffictype.js";

captureStdout(() => {});
fs.mkdirSync("dist/lambda/update-things", { recursive: true });
fs.writeFileSync("dist/lambda/update-things/update-things.js", "exports.handler = 1;");
fs.mkdirSync("dist/lambda/sub/other-things", { recursive: true });
fs.writeFileSync("dist/lambda/sub/other-things/other-things.js", "exports.handler = 2;");
fs.writeFileSync("dist/lambda/sub/other-things/extra", "3");
for (const n of ["get-v2-sites", "plain", "snake_case_name", "update3things"]) { fs.mkdirSync(`dist/lambda/${n}`, { recursive: true }); fs.writeFileSync(`dist/lambda/${n}/${n}.js`, "exports.handler = 1;"); }
const assets = new Stack(new App(), "Assets");
const HASH: Record<string, string> = {
  [new Asset(assets, "a", { path: "dist/lambda/update-things" }).assetHash]: "update-things",
  [new Asset(assets, "b", { path: "dist/lambda/sub/other-things" }).assetHash]: "sub/other-things",
  [new Asset(assets, "c", { path: "dist/lambda/sub/other-things", exclude: ["extra"] }).assetHash]: "sub/other-things without extra",
};
const GT = ComparisonOperator.GREATER_THAN_THRESHOLD, GE = ComparisonOperator.GREATER_THAN_OR_EQUAL_TO_THRESHOLD;
const al = (threshold: number | undefined, evaluationPeriods: number, datapointsToAlarm: number, comparisonOperator: ComparisonOperator) => ({ threshold, evaluationPeriods, datapointsToAlarm, comparisonOperator });
const ALARMS: Record<string, () => DtFunctionAlarms> = {
  alarmsThrottle: () => new DtFunctionAlarms().withThrottleAlarm(undefined),
  alarmsErrors: () => new DtFunctionAlarms().withErrorAlarm(al(3, 3, 2, GT)),
  alarmsDuration: () => new DtFunctionAlarms().withDurationAlarm().withDurationWarning(al(undefined, 2, 2, GT)),
  alarmsWarning: () => new DtFunctionAlarms().withDurationAlarm(al(500, 2, 1, GE)).withDurationWarning().withThrottleAlarm(al(10, 1, 1, GT)),
  alarmsZero: () => new DtFunctionAlarms().withDurationAlarm(al(0, 1, 1, GT)).withDurationWarning(al(0, 2, 2, GE)).withErrorAlarm(al(0, 1, 1, GT)).withThrottleAlarm(al(0, 1, 1, GT)),
  alarmsOwn: () => new DtFunctionAlarms().withDurationAlarm(al(700, 3, 2, GE)).withDurationWarning(al(300, 1, 1, GT)).withErrorAlarm(al(1, 2, 2, GE)).withThrottleAlarm(al(3, 2, 1, GE)),
  alarmsNone: () => new DtFunctionAlarms().withDurationAlarm().withDurationWarning().withErrorAlarm().withThrottleAlarm(),
};
const BUILD: Record<string, (b: FunctionBuilder, s: DigitrafficStack) => unknown> = {
  noDb: (b) => b.withoutDatabaseAccess(), noSecret: (b) => b.withoutSecretAccess(),
  timeout: (b) => b.withTimeout(Duration.seconds(10)), timeout900: (b) => b.withTimeout(Duration.minutes(15)),
  memory: (b) => b.withMemorySize(1024), concurrency: (b) => b.withReservedConcurrentExecutions(7), concurrency0: (b) => b.withReservedConcurrentExecutions(0),
  envA: (b) => b.withEnvironment({ A: "1", B: "1" }), envB: (b) => b.withEnvironment({ B: "2", DB_APPLICATION: "mine" }), envSecret: (b) => b.withEnvironment({ SECRET_ID: "other" }),
  handler: (b) => b.withHandler("main", "run"), describe: (b) => b.withDescription("what it does"),
  sg: (b, s) => b.withSecurityGroup((s.node.tryFindChild("own") as any) ?? SecurityGroup.fromSecurityGroupId(s, "own", "sg-own")),
  x86: (b) => b.withArchitecture(Architecture.X86_64).withRuntime(Runtime.NODEJS_22_X),
  asset: (b) => b.withAssetCode("sub/other-things"), assetLess: (b) => b.withAssetCode("sub/other-things", ["extra"]), inline: (b) => b.withCode(Code.fromInline("x")),
  layer: (b, s) => b.withLayers(LayerVersion.fromLayerVersionArn(s, `layer${s.node.findAll().length}`, "arn:aws:lambda:r:1:layer:l:1")),
  role: (b, s) => b.withRole((s.node.tryFindChild("given") as any) ?? new Role(s, "given", { assumedBy: new ServicePrincipal("lambda.amazonaws.com") })),
  allow: (b) => b.withAllowedActions("s3:GetObject", "s3:PutObject"), allowMore: (b) => b.withAllowedActions("sqs:SendMessage"),
  allowAll: (b) => b.withAllowedActions("*"), allowAllHidden: (b) => b.withAllowedActions("logs:PutLogEvents", "*"),
  policy: (b) => b.withRolePolicies(new PolicyStatement({ actions: ["sns:Publish"], resources: ["arn:aws:sns:::topic"] })),
  policies3: (b) => b.withRolePolicies(
    new PolicyStatement({ actions: ["s3:GetObject"], resources: ["arn:aws:s3:::one/x"] }),
    new PolicyStatement({ actions: ["s3:PutObject", "s3:DeleteObject"], resources: ["arn:aws:s3:::two/x", "arn:aws:s3:::three/x"] }),
    new PolicyStatement({ actions: ["sqs:SendMessage"], resources: ["*"], effect: Effect.DENY }),
  ),
  policyDeny: (b) => b.withRolePolicies(new PolicyStatement({ actions: ["sns:Subscribe"], resources: ["*"], effect: Effect.DENY })),
};
/** the parameters in which the topics of alarms and of warnings are kept */
const TOPIC: Record<string, string> = { "/digitraffic/monitoring/alarm-topic": "alarm", "/digitraffic/monitoring/warning-topic": "warning" };
const on = { create: true };
const OLD: Record<string, Record<string, unknown>> = {
  timeout: { timeout: 10 }, timeout900: { timeout: 900 }, memory: { memorySize: 1024 }, concurrency: { reservedConcurrentExecutions: 7 }, concurrency0: { reservedConcurrentExecutions: 0 },
  x86: { architecture: Architecture.X86_64, runtime: Runtime.NODEJS_22_X },
  alarmsThrottle: { durationAlarmProps: on, durationWarningProps: on, errorAlarmProps: on, throttleAlarmProps: { create: false } },
  alarmsErrors: { durationAlarmProps: on, durationWarningProps: on, errorAlarmProps: { ...on, threshold: 3, evaluationPeriods: 3, datapointsToAlarm: 2, comparisonOperator: GT }, throttleAlarmProps: on },
  alarmsDuration: { durationAlarmProps: { create: false }, durationWarningProps: { ...on, evaluationPeriods: 2, datapointsToAlarm: 2, comparisonOperator: GT }, errorAlarmProps: on, throttleAlarmProps: on },
  alarmsWarning: { durationAlarmProps: { ...on, threshold: 500, evaluationPeriods: 2 }, durationWarningProps: { create: false }, errorAlarmProps: on, throttleAlarmProps: { ...on, threshold: 10 } },
  alarmsZero: { durationAlarmProps: { ...on, threshold: 0, comparisonOperator: GT }, durationWarningProps: { ...on, threshold: 0, evaluationPeriods: 2, datapointsToAlarm: 2, comparisonOperator: GE }, errorAlarmProps: { ...on, threshold: 0, comparisonOperator: GT }, throttleAlarmProps: { ...on, threshold: 0 } },
  alarmsOwn: { durationAlarmProps: { ...on, threshold: 700, evaluationPeriods: 3, datapointsToAlarm: 2 }, durationWarningProps: { ...on, threshold: 300, comparisonOperator: GT }, errorAlarmProps: { ...on, evaluationPeriods: 2, datapointsToAlarm: 2 }, throttleAlarmProps: { ...on, threshold: 3, evaluationPeriods: 2, comparisonOperator: GE } },
  alarmsNone: { ...MonitoredFunction.DISABLE_ALARMS },
};
const why = (m: string): string => /db security group/.test(m) ? "no database group" : /Secret is undefined/.test(m) ? "no secret" : /wildcard/.test(m) ? "wildcard" : /DISABLE_ALARMS/.test(m) ? "alarms disabled in production" : /Timeout needs/.test(m) ? "no timeout" : /without VPC|without a VPC|'vpc'|if 'vpc'|vpc/i.test(m) ? "no network" : m;

function adapter(): Adapter {
  let stack: DigitrafficStack, maker: string, b: FunctionBuilder | undefined, params: any, env: any, disable: boolean;
  let alarms: any[], fn: string, readings: { metric: string; v: number }[], timeout: number;
  const text = (v: any): string => {
    if (typeof v !== "object" || v === null) return String(v);
    if ("Fn::Join" in v) return v["Fn::Join"][1].map(text).join(v["Fn::Join"][0]);
    if ("Ref" in v) return v.Ref === fn ? fnName : TOPIC[parameters[v.Ref]?.Default] ?? v.Ref;
    if ("Fn::GetAtt" in v) return v["Fn::GetAtt"].join(".");
    return JSON.stringify(v);
  };
  let fnName = "", parameters: Record<string, any> = {};
  const template = (): any => { const t = stack.resolve((stack as any)._toCloudFormation()); parameters = t.Parameters ?? {}; return t; };
  const grantsOf = (res: Record<string, any>, role: string): string[] => [...new Set(Object.values(res).filter((r) => r.Type === "AWS::IAM::Policy" && r.Properties.Roles.some((x: any) => x.Ref === role)).flatMap((r) => r.Properties.PolicyDocument.Statement)
    .flatMap((s: any) => [s.Action].flat().flatMap((x: any) => [s.Resource].flat().map((r: any) => `${s.Effect} ${x} ${/secret:the-secret/.test(text(r)) ? "the secret" : text(r)}${s.Condition ? " if" : ""}${s.NotAction || s.NotResource ? " not" : ""}`))))].sort();
  const kindOf = (a: any): string => a.Properties.MetricName === "Duration" ? (/warning/i.test(text(a.Properties.AlarmName)) ? "warning" : "duration") : String(a.Properties.MetricName).toLowerCase();
  const four = (f: (k: string) => string): any => Object.fromEntries(["duration", "warning", "errors", "throttles"].map((k) => [k, f(k)]));
  const make = (): any => {
    try {
      if (b) b.build();
      else if (maker === "monitored") {
        const p: any = { functionName: "Given", runtime: params.runtime ?? Runtime.NODEJS_24_X, architecture: params.architecture ?? Architecture.ARM_64, memorySize: params.memorySize ?? 128, reservedConcurrentExecutions: params.reservedConcurrentExecutions ?? 2, code: Code.fromInline("x"), handler: "update-things.handler", environment: env };
        if (params.role) p.role = params.role;
        if (params.timeout !== -1) p.timeout = Duration.seconds(params.timeout ?? 60);
        MonitoredFunction.create(stack, "Given", p, disable ? MonitoredFunction.DISABLE_ALARMS : params);
      } else if (maker === "v2") MonitoredFunction.createV2(stack, "update-things", env, disable ? { ...params, ...MonitoredFunction.DISABLE_ALARMS } : params);
      else MonitoredDBFunction.create(stack, "update-things", Object.keys(env).length ? env : undefined, params);
    } catch (e) { return { kind: "refused", why: why((e as Error).message) }; }
    const res: Record<string, any> = template().Resources;
    const [id, f] = Object.entries(res).find(([, r]) => r.Type === "AWS::Lambda::Function")!;
    fn = id;
    const p = f.Properties;
    fnName = p.FunctionName;
    timeout = p.Timeout;
    alarms = Object.values(res).filter((r) => r.Type === "AWS::CloudWatch::Alarm");
    const role = p.Role?.["Fn::GetAtt"]?.[0];
    const grants = grantsOf(res, role);
    const lg = p.LoggingConfig?.LogGroup && res[p.LoggingConfig.LogGroup.Ref];
    return {
      kind: "made", name: fnName, timeout: p.Timeout ?? -1, memory: p.MemorySize, concurrency: p.ReservedConcurrentExecutions, env: p.Environment?.Variables ?? {}, handler: p.Handler, description: p.Description ?? "-",
      code: p.Code.ZipFile === "x" ? "inline" : HASH[String(p.Code.S3Key).replace(".zip", "")] ?? p.Code, layers: p.Layers?.length ?? 0, role: /^given/.test(role) ? "given" : "own",
      groups: (p.VpcConfig?.SecurityGroupIds ?? []).map((g: any) => (typeof g === "string" ? g : "generated")), subnets: JSON.stringify(p.VpcConfig?.SubnetIds) === '["subnet-1","subnet-2"]',
      grants, runtime: p.Runtime, arch: p.Architectures[0], logs: lg ? `${lg.Properties.LogGroupName} ${lg.Properties.RetentionInDays}` : "-",
      alarms: four((k) => { const x = alarms.filter((a) => kindOf(a) === k); return x.length === 0 ? "-" : x.map((a) => text(a.Properties.AlarmName)).join("|"); }),
    };
  };
  return {
    match(e, o: any) { const sortG = (x: any) => (x?.grants ? { ...x, grants: [...x.grants].sort() } : x?.each ? { ...x, each: x.each.map((y: string[]) => [...y].sort()) } : x); return same(sortG(e), sortG(o)); },
    reset(init) {
      const [kind, m] = init;
      const production = kind.startsWith("prod"), bare = kind.endsWith("Bare"), vpc = kind === "prod" || kind === "test";
      stack = new DigitrafficStack(new App(), "S", {
        shortName: "T", alarmTopicArn: "a", warningTopicArn: "w", production, trafficType: TrafficType.ROAD, stackProps: {},
        ...(bare ? {} : { secretId: "the-secret" }), ...(vpc ? { vpcId: "vpc-1", lambdaDbSgId: "sg-db", privateSubnetIds: ["subnet-1", "subnet-2"], availabilityZones: ["a", "b"] } : {}),
      });
      maker = m; params = {}; env = {}; disable = false; readings = [];
      b = maker === "plain" ? FunctionBuilder.plain(stack, "update-things") : maker === "create" ? FunctionBuilder.create(stack, "update-things") : undefined;
    },
    step(a) {
      if (a.op === "step") {
        if (b) { if (a.step in ALARMS) b.withAlarms(ALARMS[a.step]!()); else BUILD[a.step]!(b, stack); }
        else if (a.step === "envA") env = { A: "1", B: "1" };
        else if (a.step === "role") params = { ...params, role: stack.node.tryFindChild("given") ?? new Role(stack, "given", { assumedBy: new ServicePrincipal("lambda.amazonaws.com") }) };
        else if (a.step === "noTimeout") params.timeout = -1;
        else if (a.step === "disable") disable = true;
        else { if (a.step.startsWith("alarms")) disable = false; params = { ...params, ...OLD[a.step] }; }
        return { kind: "none" };
      }
      if (a.op === "build") return make();
      if (a.op === "grant") {
        try {
          const fns = ["update-things", "get-v2-sites", "plain"].slice(0, a.count).map((f) => FunctionBuilder.plain(stack, f).build());
          stack.grantSecret(...(fns as any[]));
          const res = template().Resources as Record<string, any>;
          return { kind: "granted", each: fns.map((f) => grantsOf(res, stack.resolve(f.role!.roleName).Ref)) };
        } catch (e) { return { kind: "refused", why: why((e as Error).message) }; }
      }
      if (a.op === "name") {
        if (b) (maker === "plain" ? FunctionBuilder.plain(stack, a.name) : FunctionBuilder.create(stack, a.name)).build();
        else if (maker === "v2") { MonitoredFunction.createV2(stack, a.name, {}); MonitoredFunction.createV2(stack, "plain", {}, { functionName: "mine" }); }
        else { MonitoredDBFunction.create(stack, a.name); MonitoredDBFunction.create(stack, "plain", undefined, { functionName: "mine" }); }
        const names = Object.values(stack.resolve((stack as any)._toCloudFormation()).Resources as Record<string, any>).filter((r) => r.Type === "AWS::Lambda::Function").map((r) => r.Properties.FunctionName);
        return { kind: "named", name: names[0], given: names[1] ?? "mine" };
      }
      readings.push(a.r);
      return {
        kind: "rings",
        rings: four((k) => {
          const told = new Set<string>();
          for (const x of alarms.filter((y) => kindOf(y) === k)) {
            const p = x.Properties;
            if (p.Namespace !== "AWS/Lambda" || p.Dimensions.length !== 1 || p.Dimensions[0].Name !== "FunctionName" || p.Dimensions[0].Value.Ref !== fn) continue;
            const stat = k === "duration" || k === "warning" ? "Maximum" : "Sum";
            if (p.Statistic !== stat) { told.add(`statistic ${p.Statistic}`); continue; }
            if (p.Period !== 300 || p.ActionsEnabled === false) { told.add("period"); continue; }
            const w = readings.filter((r) => r.metric === p.MetricName).slice(-p.EvaluationPeriods).map((r) => (r.metric === "Duration" ? r.v * timeout : r.v));
            const breach = (v: number): boolean => p.ComparisonOperator === GE ? v >= p.Threshold : p.ComparisonOperator === GT ? v > p.Threshold : p.ComparisonOperator === "LessThanThreshold" ? v < p.Threshold : v <= p.Threshold;
            if (w.filter(breach).length >= (p.DatapointsToAlarm ?? p.EvaluationPeriods)) for (const t of p.AlarmActions) told.add(text(t));
          }
          return told.size ? [...told].sort().join("+") : "-";
        }),
      };
    },
  };
}
main({ names: { adapter }, building: { adapter }, alarms: { adapter }, older: { adapter } });
