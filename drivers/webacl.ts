import { captureStdout, main, type Adapter } from "./rt.js";
import { App, Stack } from "aws-cdk-lib";
import { Waf, lower } from "./waf.js";
import { AclBuilder } from "@lib/aws/infra/acl-builder.js";

captureStdout(() => {});
const U = undefined;
const MANY = Array.from({ length: 20 }, (_, i) => `172.16.0.${i + 1}`);
const STEPS: Record<string, (b: AclBuilder) => unknown> = {
  managedAll: (b) => b.withAWSManagedRules(),
  managedTwo: (b) => b.withAWSManagedRules(["SQLiRuleSet", "CommonRuleSet"], { CommonRuleSet: ["GenericLFI_BODY"], SQLiRuleSet: ["SQLi_BODY"] }),
  managedBad: (b) => b.withAWSManagedRules(["AmazonIpReputationList", "KnownBadInputsRuleSet"], { AmazonIpReputationList: ["AWSManagedIPDDoSList"], KnownBadInputsRuleSet: ["Log4JRCE_BODY"] }),
  managedNone: (b) => b.withAWSManagedRules([]),
  blacklist: (b) => b.withIpBlacklistRule([...MANY, "10.0.0.1", "10.0.0.9"]),
  whitelist: (b) => b.withIpWhitelistRule(["10.0.0.1", ...MANY, "10.0.0.2"]),
  query: (b) => b.withQueryStringSizeRestriction(10),
  userIp: (b) => b.withThrottleDigitrafficUserIp(2),
  userIp0: (b) => b.withThrottleDigitrafficUserIp(0),
  userIpPath0: (b) => b.withThrottleDigitrafficUserIpAndUriPath(0),
  anonIpPath0: (b) => b.withThrottleAnonymousUserIpAndUriPath(0),
  userIp1: (b) => b.withThrottleDigitrafficUserIp(1),
  userIpPath: (b) => b.withThrottleDigitrafficUserIpAndUriPath(1),
  anonIp: (b) => b.withThrottleAnonymousUserIp(2),
  anonIp0: (b) => b.withThrottleAnonymousUserIp(0),
  anonIpPath: (b) => b.withThrottleAnonymousUserIpAndUriPath(1),
  anonByPath: (b) => b.withThrottleAnonymousUserIpByUriPath(1, /^\/api\/.*$/),
  countUserIp: (b) => b.withCountDigitrafficUserIp(1),
  countUserIp2: (b) => b.withCountDigitrafficUserIp(2),
  countUserIpPath: (b) => b.withCountDigitrafficUserIpAndUriPath(1),
  countAnonIp: (b) => b.withCountAnonymousUserIp(1),
  countAnonIpPath: (b) => b.withCountAnonymousUserIpAndUriPath(1),
  ownThrottle: (b) => b.withThrottleRule("Own", 1, false, false, "OWN", /\/own/),
  ownCount: (b) => b.withThrottleRule("OwnCount", 1, true, true, undefined, /own/),
  body: (b) => b.withCustomResponseBody("OWN", { content: "slow down", contentType: "TEXT_PLAIN" }),
  bodyTaken: (b) => b.withCustomResponseBody("IP_THROTTLE_ANONYMOUS_USER_2", { content: "calm down", contentType: "TEXT_PLAIN" }),
  noUserIp: (b) => b.withThrottleDigitrafficUserIp(U),
  noUserIpPath: (b) => b.withThrottleDigitrafficUserIpAndUriPath(U),
  noAnonIp: (b) => b.withThrottleAnonymousUserIp(U),
  noAnonIpPath: (b) => b.withThrottleAnonymousUserIpAndUriPath(U),
  noAnonPath: (b) => b.withThrottleAnonymousUserIpByUriPath(5, U),
  noAnonByPath: (b) => b.withThrottleAnonymousUserIpByUriPath(U, /x/),
  noCountUserIp: (b) => b.withCountDigitrafficUserIp(U),
  noCountUserIpPath: (b) => b.withCountDigitrafficUserIpAndUriPath(U),
  noCountAnonIp: (b) => b.withCountAnonymousUserIp(U),
  noCountAnonIpPath: (b) => b.withCountAnonymousUserIpAndUriPath(U),
};

const rawBodies = (cfn: any): any => cfn.CustomResponseBodies ?? {};

function adapter(): Adapter {
  let stack: Stack, builder: AclBuilder, waf: Waf, no = 0, twice = false;
  const build = (): unknown => {
    let acl;
    if (twice) return { kind: "refused", why: "names" }; // refused when it was added
    try { acl = builder.build(); } catch (e) {
      const m = (e as Error).message;
      return { kind: "refused", why: m.includes("No rules") ? "no rules" : m.includes("same name") ? "names" : m };
    }
    const res: any = stack.resolve((acl as any)._toCloudFormation()).Resources;
    const cfn: any = (Object.values(res)[0] as any).Properties;
    const l = lower(cfn);
    l.customResponseBodies = Object.fromEntries(Object.entries(rawBodies(cfn)).map(([k, v]) => [k, lower(v)]));
    const sets: Record<string, any> = {};
    for (const c of stack.node.children) if ((c as any).cfnResourceType === "AWS::WAFv2::IPSet") sets[stack.getLogicalId(c as any)] = (c as any).addresses;
    waf = new Waf(l, sets);
    return {
      kind: "built",
      rules: l.rules.map((r: any) => ({ name: r.name, metric: r.visibilityConfig.cloudWatchMetricsEnabled ? r.visibilityConfig.metricName : "-", priority: r.priority,
        action: r.statement.managedRuleGroupStatement ? (r.overrideAction?.none && !r.action ? "group" : "no override") : r.action.count ? "count" : r.action.block.customResponse ? `${r.action.block.customResponse.responseCode} ${r.action.block.customResponse.customResponseBodyKey}` : r.action.block ? "403" : "?",
        limit: r.statement.rateBasedStatement?.limit ?? -1 })),
      bodies: Object.fromEntries(Object.entries(l.customResponseBodies).map(([k, v]: any) => [k, v.content])),
      default: l.defaultAction.allow ? "allow" : "block",
    };
  };
  return {
    reset() { twice = false; if (!stack || no++ % 200 === 0) { stack = new Stack(new App(), "S"); } else for (const c of stack.node.children) stack.node.tryRemoveChild(c.node.id); builder = new AclBuilder(stack); },
    step(a) {
      if (a.op === "add") {
        try { STEPS[a.step]!(builder); } catch (e) { if (/already a Construct/.test((e as Error).message)) { twice = true; return { kind: "none" }; } throw e; }
        return { kind: "none" };
      }
      if (a.op === "plan") { for (const s of a.steps) STEPS[s]!(builder); return build(); }
      if (a.op === "build") return build();
      return waf.ask(a.q);
    },
  };
}
main({ building: { adapter }, throttling: { adapter }, filtering: { adapter } });
