import { captureStdout, main, same, type Adapter } from "./rt.js";
import { App, LegacyStackSynthesizer, Stack } from "aws-cdk-lib";
import { InstanceType, Vpc } from "aws-cdk-lib/aws-ec2";
import { AuroraPostgresEngineVersion } from "aws-cdk-lib/aws-rds";
import { NetworkStack } from "@lib/aws/infra/stacks/network-stack.js";
import { DbStack, parseClusterIdentifier } from "@lib/aws/infra/stacks/db-stack.js";
import { DbProxyStack } from "@lib/aws/infra/stacks/db-proxy-stack.js";
import { DbDnsStack } from "@lib/aws/infra/stacks/db-dns-stack.js";

captureStdout(() => {});
process.stderr.write = (() => true) as any;
console.warn = () => {}; console.error = () => {};
const SECRET = "arn:aws:secretsmanager:eu-west-1:123456789012:secret:s-AbCdEf";
type Made = { exports: [string, any][]; params: [string, any][]; takes: string[]; rs: Record<string, any>; t: any };
const cache = new Map<string, any>();
const version = (v: any): AuroraPostgresEngineVersion => AuroraPostgresEngineVersion.of(v.version, v.major);
const endpoint = (i: any): string => i.pre + i.mid + i.post;
// the template of a stack built with a configuration; undefined when the code refuses to build it
function template(env: string, op: string, c: any): any {
  const key = JSON.stringify([env, op, c]);
  if (!cache.has(key)) {
    const isc = { env: { account: "123456789012", region: "eu-west-1" }, environmentName: env };
    const app = new App({ analyticsReporting: false, defaultStackSynthesizer: new LegacyStackSynthesizer(), context: { "availability-zones:account=123456789012:region=eu-west-1": ["eu-west-1c", "eu-west-1b", "eu-west-1a"] } });
    let t: any;
    try {
      let s: Stack;
      if (op === "network") s = new NetworkStack(app, "S", isc, { vpcName: c.name, cidr: `${c.net}.0.0/16`, ...(c.gateway === "-" ? {} : { transitGatewayId: c.gateway }) });
      else if (op === "proxy") s = new DbProxyStack(app, "S", isc, { secretArn: SECRET, securityGroupId: c.group, clusterIdentifier: c.cluster, ...(c.name === "-" ? {} : { name: c.name }) });
      else if (op === "names") s = new DbDnsStack(app, "S", isc);
      else {
        const other = c.vpc === "-" ? undefined : Vpc.fromVpcAttributes(new Stack(app, "V"), "vpc", { vpcId: "own", availabilityZones: ["a", "b"], privateSubnetIds: ["own-1", "own-2"] });
        const cluster = { securityGroupId: "sg-1", dbVersion: version({ version: c.version, major: "15" }), ...(c.snapshot === "-" ? {} : { snapshotIdentifier: c.snapshot }), writer: { instanceType: new InstanceType(c.writer) }, readers: c.readers.map((r: string) => ({ instanceType: new InstanceType(r) })) };
        const clusterImport = { clusterReadEndpoint: c.reader, clusterWriteEndpoint: endpoint(c.endpoint) };
        s = new DbStack(app, "S", isc, {
          secretArn: SECRET, customParameterGroups: c.versions.map(version), ...(c.memory ? { workmem: c.memory } : {}), ...(c.encrypted === "-" ? {} : { storageEncrypted: c.encrypted === "yes" }), ...(other ? { vpc: other } : {}),
          ...(c.kind === "cluster" || c.kind === "both" ? { cluster } : {}), ...(c.kind === "import" || c.kind === "both" ? { clusterImport } : {}),
        });
        void s;
      }
      t = app.synth().getStackByName("S").template;
      if (s instanceof DbStack) Object.defineProperty(t, "told", { value: s.resolve(s.clusterIdentifier), enumerable: false });
    } catch { t = undefined; }
    cache.set(key, t);
  }
  return cache.get(key);
}
function adapter(): Adapter {
  let env: string, stacks: Record<string, Made>, kept: Set<string>;
  const all = (k: "exports" | "params"): [string, any][] => Object.values(stacks).flatMap((s) => s[k]);
  const look = (l: [string, any][], name: string): any => { const f = l.filter(([k]) => k === name); if (f.length > 1) return `several ${name}`; return f[0]?.[1]; };
  // a value of a template, as the deployed stack would have it
  const val = (v: any, t: any, rs: Record<string, any>): any => {
    if (typeof v !== "object" || v === null) return v;
    if (Array.isArray(v)) return v.map((x) => val(x, t, rs));
    if (v["Fn::ImportValue"]) return look(all("exports"), v["Fn::ImportValue"]) ?? "missing";
    if (v.Ref && t.Parameters?.[v.Ref]?.Type?.startsWith("AWS::SSM")) return look(all("params"), t.Parameters[v.Ref].Default) ?? "missing";
    if (v.Ref && rs[v.Ref]) return nameOf(v.Ref, "", t, rs);
    if (v["Fn::GetAtt"]) return nameOf(v["Fn::GetAtt"][0], v["Fn::GetAtt"][1], t, rs);
    if (v["Fn::Join"]) return v["Fn::Join"][1].map((x: any) => val(x, t, rs)).join(v["Fn::Join"][0]);
    return JSON.stringify(v);
  };
  const nameOf = (id: string, attr: string, t: any, rs: Record<string, any>): string => {
    const r = rs[id], p = r.Properties ?? {};
    if (r.Type === "AWS::EC2::VPC" && !attr) return "vpc";
    if (r.Type === "AWS::EC2::Subnet" && !attr) return `${p.MapPublicIpOnLaunch ? "public" : "private"} ${p.AvailabilityZone}`;
    if (r.Type === "AWS::RDS::DBCluster") return ({ "": "cluster", "Endpoint.Address": "cluster writer", "ReadEndpoint.Address": "cluster reader" } as any)[attr] ?? `cluster ${attr}`;
    if (r.Type === "AWS::RDS::DBProxy" && attr === "Endpoint") return "proxy writer";
    if (r.Type === "AWS::RDS::DBProxyEndpoint" && attr === "Endpoint") return p.TargetRole === "READ_ONLY" ? "proxy reader" : "proxy writer";
    return `${id}.${attr}`;
  };
  const takesOf = (v: any): string[] => (typeof v !== "object" || v === null ? [] : v["Fn::ImportValue"] ? [v["Fn::ImportValue"]] : Object.values(v).flatMap(takesOf));
  const of = (rs: Record<string, any>, type: string): [string, any][] => Object.entries(rs).filter(([, r]) => r.Type === type).map(([k, r]) => [k, r.Properties ?? {}]);
  const retained = (r: any): boolean => r.DeletionPolicy === "Retain" && r.UpdateReplacePolicy === "Retain";
  const REFUSED = { kind: "refused" };
  const taken = (x: string): Set<string> => new Set(Object.entries(stacks).filter(([k]) => k !== x).flatMap(([, s]) => s.takes));
  const withdraws = (x: string, exports: string[]): boolean => { const t = taken(x); return (stacks[x]?.exports ?? []).some(([k]) => !exports.includes(k) && t.has(k)); };
  // what is lost with the resources that go when a stack is replaced or taken away
  const drop = (x: string, next: Record<string, any>): void => { void next; const s = stacks[x]; if (!s) return; for (const r of Object.values(s.rs)) if (!retained(r)) { if (r.Type === "AWS::RDS::DBCluster" && !Object.values(next).some((y) => y.Type === r.Type)) kept.delete("cluster"); if (r.Type === "AWS::KMS::Key" && !Object.values(next).some((y) => y.Type === r.Type)) kept.delete("key"); if (r.Type === "AWS::Route53::HostedZone") kept.delete("zone"); } };
  const deploy = (x: string, op: string, c: any): any => {
    const t = template(env, op, c);
    if (!t) return undefined;
    const rs: Record<string, any> = t.Resources ?? {};
    const takes = [...new Set(takesOf(rs).concat(takesOf(t.Outputs ?? {})))];
    if (takes.some((k) => look(all("exports"), k) === undefined)) return undefined;
    if (Object.values(t.Parameters ?? {}).some((p: any) => p.Type.startsWith("AWS::SSM") && look(all("params"), p.Default) === undefined)) return undefined;
    const exports: [string, any][] = Object.values(t.Outputs ?? {}).filter((o: any) => o.Export).map((o: any) => [o.Export.Name, val(o.Value, t, rs)]);
    if (withdraws(x, exports.map(([k]) => k))) return undefined;
    const params: [string, any][] = of(rs, "AWS::SSM::Parameter").map(([, p]) => [p.Name, val(p.Value, t, rs)]);
    drop(x, rs);
    stacks[x] = { exports, params, takes, rs, t };
    for (const r of Object.values(rs)) { if (r.Type === "AWS::RDS::DBCluster") kept.add("cluster"); if (r.Type === "AWS::KMS::Key") kept.add("key"); if (r.Type === "AWS::Route53::HostedZone") kept.add("zone"); }
    return { t, rs, v: (y: any) => val(y, t, rs), told: t.told };
  };
  const network = (c: any): unknown => {
    const d = deploy("net", "network", c);
    if (!d) return REFUSED;
    const { rs, v } = d;
    const [, vpc] = of(rs, "AWS::EC2::VPC")[0]!;
    const nats = Object.fromEntries(of(rs, "AWS::EC2::NatGateway").map(([k, p]) => [k, v(p.SubnetId)]));
    const subnets = of(rs, "AWS::EC2::Subnet").map(([k, p]) => {
      const table = of(rs, "AWS::EC2::SubnetRouteTableAssociation").filter(([, q]) => q.SubnetId.Ref === k).map(([, q]) => q.RouteTableId.Ref);
      const routes = of(rs, "AWS::EC2::Route").filter(([, q]) => table.includes(q.RouteTableId.Ref)).map(([, q]) => q);
      const r = routes[0];
      const to = routes.length !== 1 || r.DestinationCidrBlock !== "0.0.0.0/0" ? `${routes.length} routes` : r.GatewayId ? (rs[r.GatewayId.Ref].Type === "AWS::EC2::InternetGateway" && of(rs, "AWS::EC2::VPCGatewayAttachment").length === 1 ? "internet" : "?") : r.NatGatewayId ? `nat in ${nats[r.NatGatewayId.Ref]}` : r.TransitGatewayId ?? "?";
      return [v({ Ref: k }), p.CidrBlock, to];
    });
    return { kind: "network", name: vpc.Tags?.find((x: any) => x.Key === "Name")?.Value ?? "-", cidr: vpc.CidrBlock, names: vpc.EnableDnsHostnames === true && vpc.EnableDnsSupport === true, subnets };
  };
  const database = (c: any): unknown => {
    const d = deploy("db", "database", c);
    if (!d) return REFUSED;
    const { rs, v } = d;
    const clusters = of(rs, "AWS::RDS::DBCluster");
    if (!clusters.length) return { kind: "imported", told: d.told };
    const [id, p] = clusters[0]!;
    const key = p.KmsKeyId ? rs[p.KmsKeyId["Fn::GetAtt"]?.[0]] : undefined;
    const alias = p.KmsKeyId ? of(rs, "AWS::KMS::Alias").filter(([, a]) => JSON.stringify(a.TargetKeyId) === JSON.stringify(p.KmsKeyId)).map(([, a]) => a.AliasName).join() : "";
    const secret = (s: any): string => { const m = /^\{\{resolve:secretsmanager:(.*):SecretString:(.*)::\}\}$/.exec(s ?? ""); return m && m[1] === SECRET ? m[2]! : s ?? "-"; };
    const group = of(rs, "AWS::RDS::DBSubnetGroup").find(([k]) => p.DBSubnetGroupName.Ref === k)![1];
    const inst = of(rs, "AWS::RDS::DBInstance").map(([, q]) => q).filter((q) => q.DBClusterIdentifier.Ref === id);
    const sorted = [...inst].sort((a, b) => a.PromotionTier - b.PromotionTier);
    const pg = rs[p.DBClusterParameterGroupName.Ref]?.Properties;
    const mem = of(rs, "AWS::RDS::DBClusterParameterGroup").map(([, q]) => `${q.Family} ${q.Parameters.work_mem}`);
    const instMem = of(rs, "AWS::RDS::DBParameterGroup").map(([, q]) => `${q.Family} ${q.Parameters.work_mem}`);
    const own = inst.every((q) => rs[q.DBParameterGroupName.Ref]?.Properties.Family === pg.Family);
    return {
      kind: "database", version: p.EngineVersion, snapshot: p.SnapshotIdentifier ?? "-", user: secret(p.MasterUsername), password: secret(p.MasterUserPassword), port: p.Port, backups: p.BackupRetentionPeriod, locked: p.DeletionProtection === true && retained(rs[id]) && inst.length > 0,
      encrypted: p.StorageEncrypted === true, key: key ? `${alias}${key.Properties.EnableKeyRotation && retained(key) ? " rotated" : ""}` : "-", groups: p.VpcSecurityGroupIds.join(), subnets: group.SubnetIds.map(v),
      logs: same(p.EnableCloudwatchLogsExports, ["postgresql"]), parameters: own ? pg.Family : "mixed", memory: same(mem, instMem) ? mem : [mem, instMem],
      instances: sorted.map((q) => `${q.PromotionTier === 0 ? "writer" : "reader"} ${q.DBInstanceClass.replace(/^db\./, "")}`), closed: inst.every((q) => q.PubliclyAccessible === false),
      upgrades: inst.every((q) => q.AutoMinorVersionUpgrade === true && q.AllowMajorVersionUpgrade === false) ? "minor" : "other", insight: inst.every((q) => q.EnablePerformanceInsights === true && q.MonitoringInterval === 30), told: v(d.told),
    };
  };
  const proxy = (c: any): unknown => {
    const d = deploy("proxy", "proxy", c);
    if (!d) return REFUSED;
    const { rs, v } = d;
    const [id, p] = of(rs, "AWS::RDS::DBProxy")[0]!;
    const [, g] = of(rs, "AWS::RDS::DBProxyTargetGroup")[0]!;
    const [, e] = of(rs, "AWS::RDS::DBProxyEndpoint")[0]!;
    const role = p.RoleArn["Fn::GetAtt"][0];
    const may = of(rs, "AWS::IAM::Policy").filter(([, q]) => q.Roles.some((x: any) => x.Ref === role)).flatMap(([, q]) => q.PolicyDocument.Statement).some((s: any) => s.Effect === "Allow" && [s.Action].flat().includes("secretsmanager:GetSecretValue") && s.Resource === SECRET);
    const ci = g.ConnectionPoolConfigurationInfo;
    const together = g.DBProxyName.Ref === id && e.DBProxyName.Ref === id;
    return {
      kind: "proxy", name: p.DBProxyName, of: together ? g.DBClusterIdentifiers.join() : "nothing", idle: p.IdleClientTimeout, borrow: ci.ConnectionBorrowTimeout, most: ci.MaxConnectionsPercent, spare: ci.MaxIdleConnectionsPercent,
      secret: p.Auth.map((a: any) => (a.AuthScheme === "SECRETS" ? a.SecretArn.split(":").pop() : "?")).join(), mayRead: may, tls: p.RequireTLS === true, groups: [...new Set([...p.VpcSecurityGroupIds, ...e.VpcSecurityGroupIds])],
      subnets: same(p.VpcSubnetIds, e.VpcSubnetIds) ? p.VpcSubnetIds.map(v) : ["different"], reader: e.TargetRole === "READ_ONLY" ? "read only" : e.TargetRole,
    };
  };
  const names = (): unknown => {
    const d = deploy("dns", "names", {});
    if (!d) return REFUSED;
    const { rs, v } = d;
    const zones = of(rs, "AWS::Route53::HostedZone");
    const [id, z] = zones[0]!;
    const recs = of(rs, "AWS::Route53::RecordSet").map(([, p]) => p);
    const dot = (s: string): string => s.replace(/\.$/, "");
    const ttl = [...new Set(recs.map((r) => Number(r.TTL)))];
    return { kind: "names", zone: `${dot(z.Name)} in ${z.VPCs.map((x: any) => v(x.VPCId)).join()}`, names: recs.map((r) => [r.Type === "CNAME" && r.HostedZoneId.Ref === id ? dot(r.Name) : `${r.Type} ${r.Name}`, r.ResourceRecords.map(v).join()]), live: ttl.length === 1 ? ttl[0] : ttl };
  };
  const sets = (o: any): any => { const r = { ...o }; for (const k of ["subnets", "names", "groups", "left"]) if (Array.isArray(r[k])) r[k] = r[k].map((x: any) => JSON.stringify(x)).sort(); return r; };
  const pairs = (o: any): any => [o.exports, o.params].map((l: any[]) => l.map((x) => JSON.stringify(x)).sort());
  const act = (a: any): any => {
      if (a.op === "network") return network(a.c);
      if (a.op === "database") return database(a.c);
      if (a.op === "proxy") return proxy(a.c);
      if (a.op === "names") return names();
      if (a.op === "identify") {
        const w = { clusterReadEndpoint: "r", clusterWriteEndpoint: endpoint(a.i) };
        try { return { kind: "identifier", is: a.fallback ? parseClusterIdentifier(w, a.fallback) : parseClusterIdentifier(w) }; } catch { return REFUSED; }
      }
      const x = a.stack;
      if (withdraws(x, [])) return REFUSED;
      drop(x, {}); delete stacks[x];
      return { kind: "gone", left: [...kept] };
  };
  return {
    match: (e, o) => same([sets(e.out), pairs(e)], [sets(o.out), pairs(o)]),
    reset(init) { env = init[0]; stacks = {}; kept = new Set(); },
    step(a) { const out = act(a); return { out, exports: all("exports"), params: all("params") }; },
  };
}
main({ stacks: { adapter } });
