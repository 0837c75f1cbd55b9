import { VirtualClock, captureStdout, main, same, type Adapter } from "./rt.js";
import vm from "node:vm";
import path from "node:path";
import crypto from "node:crypto";
import { pathToFileURL } from "node:url";
import { App, Duration, Stack } from "aws-cdk-lib";
import { Queue } from "aws-cdk-lib/aws-sqs";

captureStdout(() => {});
const clock = new VirtualClock(Date.UTC(2024, 0, 1));
clock.install();
const lib = (p: string): Promise<any> => import(pathToFileURL(path.join(process.env.VERIF_TMP!, "libdist", p)).href);
const THE_BUCKET = `the-${"bucket-".repeat(8)}end`;
const later = setImmediate;
const BODY: Record<string, string> = { twin: '{"a":1}', odd: 'ä "quoted" \'and\' ${x} `\\n\n', plain: "plain text" };
const NAME = Object.fromEntries(Object.entries(BODY).map(([k, v]) => [v, k]));
const body = (m: string): string => BODY[["m1", "m2", "m5"].includes(m) ? "twin" : m === "m3" ? "odd" : "plain"]!;
const count = (l: string[]): Record<string, number> => { const r: Record<string, number> = {}; for (const x of l) r[x] = (r[x] ?? 0) + 1; return r; };
async function adapter(): Promise<Adapter> {
  const { DigitrafficStack } = await lib("aws/infra/stack/stack.js");
  const { DigitrafficSqsQueue, DigitrafficDLQueue } = await lib("aws/infra/sqs-queue.js");
  const { sanitizeS3BucketName } = await lib("aws/infra/sqs-queue-internal.js");
  const seen = new Map<string, string>();
  let kind: string, res: Record<string, any>, waiting: Record<string, number>, dead: string[], bucket: Map<string, string>, queue: any, dlqName: string, handler: any, logs: string[], broken: Record<string, number>, bucketId: string;
  const ref = (v: any): string => (typeof v === "string" ? v : v["Fn::GetAtt"]?.[0] ?? v.Ref ?? v["Fn::Join"]?.[1].map((x: any) => (typeof x === "string" ? x : ref(x))).join(v["Fn::Join"][0]));
  const qOf = (name: string): any => Object.entries(res).find(([, r]) => r.Type === "AWS::SQS::Queue" && r.Properties.QueueName === name);
  const state = (k: string, extra = {}): unknown => ({ kind: k, waiting: { ...waiting }, dead: [...dead], stored: count([...bucket.values()].map((b) => NAME[b] ?? `unknown ${b}`)), ...extra });
  const create = (): unknown => {
    const stack = new DigitrafficStack(new App(), "S", { shortName: "T", alarmTopicArn: "a", warningTopicArn: "w", production: false, trafficType: "Road", stackProps: {} });
    const asked = { visibilityTimeout: Duration.seconds(77), retentionPeriod: Duration.days(3), receiveMessageWaitTime: Duration.seconds(7), deliveryDelay: Duration.seconds(5), ...(kind === "fifo" ? { fifo: true, contentBasedDeduplication: true } : {}) };
    if (kind === "dlq") DigitrafficDLQueue.create(stack, "my_things");
    else if (kind === "fifo") DigitrafficSqsQueue.createFifo(stack, "my_things", asked);
    else if (kind === "own") DigitrafficSqsQueue.create(stack, "my_things", { ...asked, deadLetterQueue: { maxReceiveCount: 4, queue: new Queue(stack, "own", { queueName: "own" }) }, encryption: undefined, queueName: "mine" });
    else DigitrafficSqsQueue.create(stack, "my_things", asked);
    res = (stack as Stack).resolve((stack as any)._toCloudFormation()).Resources;
    const mine = Object.values(res).filter((r) => r.Type === "AWS::SQS::Queue" && r.Properties.QueueName !== "own");
    queue = mine.map((r) => r.Properties).find((p) => !/DLQ$/.test(p.QueueName));
    const redrive = queue?.RedrivePolicy;
    const target = redrive ? res[ref(redrive.deadLetterTargetArn)]?.Properties.QueueName : undefined;
    const dl = Object.values(res).find((r) => r.Type === "AWS::SQS::Queue" && /DLQ$/.test(r.Properties.QueueName))?.Properties.QueueName;
    dlqName = target ?? dl ?? "-";
    const b = Object.entries(res).find(([, r]) => r.Type === "AWS::S3::Bucket");
    bucketId = b?.[0] ?? "-";
    const f = Object.entries(res).find(([, r]) => r.Type === "AWS::Lambda::Function");
    const blocked = b && ["BlockPublicAcls", "BlockPublicPolicy", "IgnorePublicAcls", "RestrictPublicBuckets"].every((k) => b[1].Properties.PublicAccessBlockConfiguration?.[k] === true);
    let grants: string[] = [], alarm = "-", inTime = true;
    if (f) {
      const role = ref(f[1].Properties.Role);
      const [dlqId, dlqRes] = qOf(dl!);
      grants = Object.values(res).filter((r) => r.Type === "AWS::IAM::Policy" && r.Properties.Roles.some((x: any) => x.Ref === role)).flatMap((r) => r.Properties.PolicyDocument.Statement)
        .flatMap((s: any) => [s.Action].flat().flatMap((a: string) => [s.Resource].flat().map((x: any) => `${a} ${ref(x).replace(bucketId, "bucket").replace(dlqId, dl!)}`)));
      const src = Object.values(res).filter((r) => r.Type === "AWS::Lambda::EventSourceMapping");
      if (src.length !== 1 || ref(src[0].Properties.EventSourceArn) !== dlqId || ref(src[0].Properties.FunctionName) !== f[0] || src[0].Properties.Enabled === false) grants.push("not attached");
      // a message is not handed out again while the function may still be at work on it
      inTime = dlqRes.Properties.VisibilityTimeout >= f[1].Properties.Timeout && f[1].Properties.ReservedConcurrentExecutions === 1;
      const al = Object.values(res).filter((r) => r.Type === "AWS::CloudWatch::Alarm" && r.Properties.Namespace === "AWS/SQS").map((r) => r.Properties);
      alarm = al.map((p) => (p.MetricName === "NumberOfMessagesReceived" && ref(p.Dimensions[0].Value) === dlqId && p.EvaluationPeriods === 1 && ((p.ComparisonOperator === "GreaterThanThreshold" && p.Threshold === 0) || (p.ComparisonOperator === "GreaterThanOrEqualToThreshold" && p.Threshold === 1)) && p.TreatMissingData === "notBreaching" && ["Sum", "Average"].includes(p.Statistic)
        ? `${p.AlarmName} ${p.AlarmActions.map((x: any) => (/Warning/.test(ref(x)) ? "warning" : ref(x))).join()}` : `wrong ${p.AlarmName}`)).join("|") || "-";
      // the code of the function, as it was synthesised
      const z = f[1].Properties.Code.ZipFile;
      const code = typeof z === "string" ? z : z["Fn::Join"][1].map((x: any) => (typeof x === "string" ? x : x.Ref === bucketId ? THE_BUCKET : JSON.stringify(x))).join("");
      const exports: any = {};
      class PutObjectCommand { constructor(public input: any) {} }
      class S3Client {
        async send(c: any) {
          for (let i = 0; i < 3; i++) await new Promise((r) => later(() => r(0)));
          const { Bucket, Key, Body } = c.input;
          if (!(c instanceof PutObjectCommand) || Bucket !== THE_BUCKET) throw new Error("no such bucket");
          if ((broken[Body] ?? 0) > 0 && broken[Body]--) throw new Error("slow down");
          bucket.set(Key, Body);
        }
      }
      const ctx = vm.createContext({ exports, JSON, console, Date, Promise, process: { env: { AWS_LAMBDA_FUNCTION_NAME: "f", AWS_EXECUTION_ENV: "r" }, stdout: { write: (l: string) => logs.push(l) } }, require: (m: string) => { if (m === "@aws-sdk/client-s3") return { PutObjectCommand, S3Client }; throw new Error(m); } });
      vm.runInContext(code, ctx);
      handler = f[1].Properties.Handler === "index.handler" ? exports.handler : undefined;
    }
    return {
      kind: "made", encrypted: mine.every((r) => r.Properties.KmsMasterKeyId === "alias/aws/sqs"), queue: queue?.QueueName ?? "-", fifo: queue?.FifoQueue === true, dead: target ?? (kind === "dlq" ? dl : "-"),
      tries: redrive?.maxReceiveCount ?? 0, bucket: b ? `${b[1].Properties.BucketName} ${blocked ? "private" : "open"}` : "-", grants, alarm, inTime,
      settings: !queue ? "-" : queue.VisibilityTimeout === 77 && queue.MessageRetentionPeriod === 259200 && queue.ReceiveMessageWaitTimeSeconds === 7 && queue.DelaySeconds === 5 && (kind !== "fifo" || queue.ContentBasedDeduplication === true) ? "as asked" : `others: ${JSON.stringify(queue)}`,
    };
  };
  return {
    match(e, o: any) { const f = (x: any) => ({ ...x, ...(x.grants ? { grants: [...x.grants].sort() } : {}) }); return same(f(e), f(o)); },
    reset(init) { kind = init[0]; waiting = {}; dead = []; bucket = new Map(); logs = []; broken = {}; handler = undefined; clock.now += 1000; },
    async step(a) {
      if (a.op === "create") return create();
      if (a.op === "name") {
        const raw = a.x.pre + a.x.unit.repeat(a.x.times) + a.x.post;
        const name = sanitizeS3BucketName(raw);
        const long = name.length > 54 && /-[0-9a-f]{8}$/.test(name) && raw.length > 63;
        let distinct = sanitizeS3BucketName(raw) === name;
        if (long) { if (seen.has(name) && seen.get(name) !== raw) distinct = false; seen.set(name, raw); }
        void crypto;
        return { kind: "bucket", name: long ? name.replace(/[0-9a-f]{8}$/, "########") : name, distinct };
      }
      if (a.op === "send") { waiting[a.m] = 0; return state("state"); }
      if (a.op === "drop") { dead.push(a.m); return state("state"); }
      if (a.op === "flood") { for (let i = 1; i <= 10; i++) dead.push(`f${i}`); return state("state"); }
      if (a.op === "consume") {
        if (a.ok) delete waiting[a.m];
        else if (!queue.RedrivePolicy || waiting[a.m]! + 1 < queue.RedrivePolicy.maxReceiveCount) waiting[a.m]!++;
        else { delete waiting[a.m]; if (dlqName !== "-") dead.push(a.m); }
        return state("state");
      }
      clock.now += 1;
      broken = count(a.bad.map(body)); logs = [];
      const Records = dead.map((m) => ({ messageId: m, receiptHandle: m, body: body(m), attributes: {}, messageAttributes: {}, md5OfBody: "", eventSource: "aws:sqs" }));
      let settled = false;
      const p = handler({ Records }).then(() => { settled = true; }, () => { /* the messages stay */ });
      // what is not done when the function is done is not done at all
      await p;
      if (settled) dead = [];
      const errors = logs.filter((l) => { const j = JSON.parse(l); return j.level === "ERROR" && /upload failed/.test(j.message) && l.endsWith("\n"); }).length;
      return state("collected", { logged: errors, settled });
    },
  };
}
main({ flow: { adapter }, names: { adapter } });
