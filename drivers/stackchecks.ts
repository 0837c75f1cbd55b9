import { captureStdout, main, same, type Adapter } from "./rt.js";
import { Construct } from "constructs";
import { App, Aspects, Tags } from "aws-cdk-lib";
import { CfnMethod, CfnResource } from "aws-cdk-lib/aws-apigateway";
import { CfnFunction } from "aws-cdk-lib/aws-lambda";
import { LogRetention } from "aws-cdk-lib/aws-logs";
import { CfnBucket } from "aws-cdk-lib/aws-s3";
import { CfnQueue } from "aws-cdk-lib/aws-sqs";
import { DigitrafficStack, SOLUTION_KEY } from "@lib/aws/infra/stack/stack.js";
import { TrafficType } from "@lib/types/traffictype.js";

captureStdout(() => {});
const SHAPE: Record<string, any> = {
  plain: {}, fifo: { fifoQueue: true, queueName: "q.fifo" }, delayed: { delaySeconds: 10, messageRetentionPeriod: 60 }, "with dead letters": { redrivePolicy: { deadLetterTargetArn: "arn", maxReceiveCount: 2 } },
  "with everything": { queueName: "T-q", visibilityTimeout: 60, receiveMessageWaitTimeSeconds: 20, tags: [{ key: "Solution", value: "x" }], maximumMessageSize: 1024 },
};
function adapter(): Adapter {
  let stack: DigitrafficStack;
  const add = (r0: any): void => {
    const parts = String(r0.id).split("/");
    const r = { ...r0, id: parts.pop()! };
    const scope: any = parts.reduce((c: any, x) => c.node.tryFindChild(x) ?? new Construct(c, x), stack);
    if (r.type === "function") new CfnFunction(scope, r.id, { code: { zipFile: "x" }, role: "r", handler: "h", ...(r.concurrency ? { reservedConcurrentExecutions: r.concurrency } : {}), ...(r.timeout ? { timeout: r.timeout } : {}), ...(r.memory ? { memorySize: r.memory } : {}), ...(r.runtime !== "-" ? { runtime: r.runtime } : {}), ...(r.name !== "-" ? { functionName: r.name } : {}) });
    else if (r.type === "bucket") new CfnBucket(scope, r.id, r.open[0] === "none" ? {} : { publicAccessBlockConfiguration: { blockPublicAcls: !r.open.includes("acls"), blockPublicPolicy: !r.open.includes("policy"), ignorePublicAcls: !r.open.includes("ignore"), restrictPublicBuckets: !r.open.includes("restrict") } });
    else if (r.type === "queue") new CfnQueue(scope, r.id, { ...SHAPE[r.shape], ...(r.encrypted ? { kmsMasterKeyId: "alias/aws/sqs" } : {}) });
    else if (r.type === "logs") { const l = new LogRetention(scope, r.id, { logGroupName: "g", retention: 30 }); if (!r.retained) delete (l.node.defaultChild as any)._cfnProperties.RetentionInDays; }
    else if (r.type === "path") new CfnResource(scope, r.id, { parentId: "p", restApiId: "a", pathPart: r.part });
    else new CfnMethod(scope, r.id, { httpMethod: "GET", resourceId: "r", restApiId: "a", integration: { type: "MOCK", requestParameters: Object.fromEntries(r.params.map((p: any) => [`integration.request.${p.in}.${p.name}`, "x"])) } });
  };
  return {
    match(e, o: any) { const f = (x: any) => (x?.problems ? { ...x, problems: [...x.problems].sort() } : x); return same(f(e), f(o)); },
    reset(init) {
      const [s, white] = init;
      stack = new DigitrafficStack(new App(), s.name, { shortName: "T", alarmTopicArn: "a", warningTopicArn: "w", production: s.production, trafficType: TrafficType.ROAD, stackProps: {},
        ...(white.length ? { whitelistedResources: white.map((w: any) => (w.b ? `${w.a}.*${w.b}` : w.a)) } : {}) });
      if (s.tagged) Tags.of(stack).add(SOLUTION_KEY, "x"), stack.tags.setTag(SOLUTION_KEY, "x");
      else Tags.of(stack).add("Other", "x"), stack.tags.setTag("Other", "x");
    },
    step(a) {
      if (a.op === "add") { add(a.r); return { kind: "none" }; }
      const problems: string[] = [];
      const nodes = stack.node.findAll();
      for (const aspect of Aspects.of(stack).all) if (aspect.constructor.name !== "Tag") for (const n of nodes) aspect.visit(n);
      for (const n of nodes) for (const m of n.node.metadata) if (/^aws:cdk:(error|warning)$/.test(m.type)) {
        const level = m.type.split(":")[2];
        const key = String(m.data).split(":")[0]!;
        if (key.slice(0, key.lastIndexOf("/")) !== n.node.path) problems.push(`misplaced ${n.node.path}`);
        problems.push(`${level} ${key}`);
      }
      return { kind: "report", problems };
    },
  };
}
main({ single: { adapter }, stacks: { adapter }, several: { adapter }, deep: { adapter } });
