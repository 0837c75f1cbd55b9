import path from "node:path";
import crypto from "node:crypto";

// ---- what WAF does with the list that was synthesised
export type Q = { ip: string; path: string; user: string; size: number; threat: { group: string; rule: string } };
export const lower = (o: any): any => (Array.isArray(o) ? o.map(lower) : o !== null && typeof o === "object" ? Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined).map(([k, v]) => [k[0]!.toLowerCase() + k.slice(1), lower(v)])) : o);
export class Waf {
  hits = new Map<string, number>();
  rules: any[];
  constructor(public acl: any, public ipSets: Record<string, any>) { this.rules = [...acl.rules].sort((a, b) => a.priority - b.priority); }
  field(f: any, q: Q): string | undefined {
    if (f.singleHeader) return f.singleHeader.name.toLowerCase() === "digitraffic-user" ? (q.user === "absent" ? undefined : q.user === "empty" ? "" : q.user === "short" ? "x" : "someone") : undefined;
    if (f.queryString) return "x".repeat(q.size);
    if (f.uriPath) return q.path;
    throw new Error(`field ${JSON.stringify(f)}`);
  }
  transform(s: string, ts: any[]): string {
    for (const t of [...ts].sort((a, b) => a.priority - b.priority)) {
      if (t.type === "LOWERCASE") s = s.toLowerCase();
      else if (t.type === "NORMALIZE_PATH") s = path.posix.normalize(s);
      else if (t.type === "MD5") s = crypto.createHash("md5").update(s).digest("hex");
      else if (t.type !== "NONE") throw new Error(`transformation ${t.type}`);
    }
    return s;
  }
  matches(st: any, q: Q): boolean {
    const [kind] = Object.keys(st);
    const s = st[kind!];
    switch (kind) {
      case "notStatement": return !this.matches(s.statement, q);
      case "andStatement": return s.statements.every((x: any) => this.matches(x, q));
      case "orStatement": return s.statements.some((x: any) => this.matches(x, q));
      case "iPSetReferenceStatement": case "ipSetReferenceStatement": return this.ipSets[s.arn["fn::GetAtt"]?.[0] ?? s.arn.getAtt].includes(q.ip);
      case "sizeConstraintStatement": {
        const f = this.field(s.fieldToMatch, q);
        if (f === undefined) return false; // a constraint on an absent header does not match
        const n = this.transform(f, s.textTransformations).length;
        return ({ GT: n > s.size, GE: n >= s.size, LT: n < s.size, LE: n <= s.size, EQ: n === s.size, NE: n !== s.size } as any)[s.comparisonOperator];
      }
      case "regexMatchStatement": {
        const f = this.field(s.fieldToMatch, q);
        return f !== undefined && new RegExp(s.regexString).test(this.transform(f, s.textTransformations));
      }
      default: throw new Error(`statement ${kind}`);
    }
  }
  ask(q: Q): unknown {
    const counted: string[] = [];
    for (const r of this.rules) {
      const st = r.statement;
      let hit: boolean;
      if (st.managedRuleGroupStatement) {
        const g = st.managedRuleGroupStatement;
        hit = g.vendorName === "AWS" && g.name === q.threat.group && !(g.excludedRules ?? []).some((x: any) => x.name === q.threat.rule) && r.overrideAction?.none !== undefined;
      } else if (st.rateBasedStatement) {
        const s = st.rateBasedStatement;
        if (s.scopeDownStatement && !this.matches(s.scopeDownStatement, q)) continue;
        let key = r.name;
        if (s.aggregateKeyType === "IP") key += ` ${q.ip}`;
        else if (s.aggregateKeyType === "CUSTOM_KEYS") for (const k of s.customKeys) key += k.ip || k.iP ? ` ${q.ip}` : ` ${this.transform(q.path, k.uriPath.textTransformations)}`;
        else throw new Error(`key ${s.aggregateKeyType}`);
        if (s.evaluationWindowSec !== undefined && s.evaluationWindowSec !== 300) throw new Error("window");
        const n = (this.hits.get(key) ?? 0) + 1;
        this.hits.set(key, n);
        hit = n > s.limit;
      } else hit = this.matches(st, q);
      if (!hit) continue;
      if (r.action?.count) { counted.push(r.name); continue; }
      if (st.managedRuleGroupStatement) return { kind: "verdict", verdict: r.name, status: 403, body: "-", counted };
      if (r.action?.allow) return { kind: "verdict", verdict: "allow", status: 200, body: "-", counted };
      const c = r.action.block.customResponse;
      return { kind: "verdict", verdict: r.name, status: c ? c.responseCode : 403, body: c ? (this.acl.customResponseBodies?.[c.customResponseBodyKey]?.content ?? "undefined") : "-", counted };
    }
    const allow = this.acl.defaultAction.allow !== undefined;
    return { kind: "verdict", verdict: allow ? "allow" : "default", status: allow ? 200 : 403, body: "-", counted };
  }
}
