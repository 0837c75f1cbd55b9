------------------------------- MODULE Wiring --------------------------------
(* What the helpers for stacks wire together: when a function runs by itself, which  *)
(* security findings are told about, who may read a bucket, where logs go, which key  *)
(* opens which API, and what the documentation says.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Modes, Schedules, Findings, Grants, Subscriptions, Plans, Groups, Docs, Steps
VARIABLES mode, made, out, act
vars == <<mode, made, out, act>>
View == <<mode, made>>
Range(f) == {f[i] : i \in DOMAIN f}

\* ---------------------------------------------------------------- schedules
Unit(u) == CASE u = "minute" -> 1 [] u = "hour" -> 60 [] OTHER -> 1440
EveryMinutes(s) == CASE s.kind = "minute" -> 1 [] s.kind = "minutes" -> s.count [] s.kind = "hour" -> 60 [] s.kind = "day" -> 1440 [] s.kind = "every" -> s.count * Unit(s.unit) [] OTHER -> 0
Schedule(s) == out' = [kind |-> "runs", rules |-> {<<x.name, EveryMinutes(x), IF x.kind = "cron" THEN x.unit ELSE "-", x.fn>> : x \in Range(made')}]

\* ---------------------------------------------------------------- security findings
Told(f) == f.source = "aws.securityhub" /\ f.type = "Security Hub Findings - Imported" /\ f.compliance = "FAILED" /\ f.workflow = "NEW" /\ f.severity \in {"HIGH", "CRITICAL"}

\* ---------------------------------------------------------------- grants on a bucket
Callers == {[is |-> "cloudfront", of |-> "dist-1"], [is |-> "cloudfront", of |-> "dist-2"], [is |-> "cloudfront", of |-> "-"], [is |-> "user", of |-> "user-1"], [is |-> "user", of |-> "user-2"],
            [is |-> "anyone", of |-> "-"], [is |-> "lambda", of |-> "dist-1"]}
Acts == {"s3:GetObject", "s3:GetObjectAcl", "s3:PutObject", "s3:ListBucket"}
Things == {"", "/a.json", "/private/x", "/public/x"}
WhoOf(g) == IF g.way = "oac" THEN [is |-> "cloudfront", of |-> g.who] ELSE [is |-> "user", of |-> g.who]
ActionsOf(g) == IF g.actions = <<>> THEN {"s3:GetObject"} ELSE Range(g.actions)
\* without resources, every object of the bucket, and not the bucket itself
Covers(g, t) == IF g.resources = <<>> THEN t # "" ELSE \E i \in 1..Len(g.resources) :
                  LET r == g.resources[i] IN IF r = "bucket" THEN t = "" ELSE IF r = "public" THEN t = "/public/x" ELSE t = "/a.json"
Matches(g, c, a, t) == WhoOf(g) = c /\ a \in ActionsOf(g) /\ Covers(g, t)
Allowed(gs, c, a, t) == (\E g \in gs : g.effect # "deny" /\ Matches(g, c, a, t)) /\ ~(\E g \in gs : g.effect = "deny" /\ Matches(g, c, a, t))
Grant(g) == out' = [kind |-> "access", may |-> {<<c.is, c.of, a, t>> : c \in Callers, a \in Acts, t \in Things} \cap
                                             {x \in {<<c.is, c.of, a, t>> : c \in Callers, a \in Acts, t \in Things} : Allowed(Range(made'), [is |-> x[1], of |-> x[2]], x[3], x[4])}]

\* ---------------------------------------------------------------- logs of functions sent on
Streams(s) == IF s.to = "-" THEN {} ELSE {<<f, s.to, "everything", "after">> : f \in Range(s.fns)}
Subscribe(s) == out' = [kind |-> "streams", of |-> UNION {Streams(x) : x \in Range(made')}]

\* ---------------------------------------------------------------- keys and plans
Plan(p) == out' = [kind |-> "plans", of |-> {<<IF x.kind = "named" THEN x.name \o " API Usage Plan" ELSE x.name, IF x.kind = "named" THEN x.name \o " API Key" ELSE "-", IF x.kind = "named" /\ x.value # "-" THEN x.value ELSE "-", "deployed">> : x \in Range(made')}, own |-> TRUE]

\* ---------------------------------------------------------------- log groups
GroupOf(g) == <<"/" \o (IF g.stack = "digitraffic" THEN "Short" ELSE g.short) \o "/lambda/" \o g.fn, IF g.days = 0 THEN 365 ELSE g.days>>
Group(g) == out' = [kind |-> "groups", of |-> {GroupOf(x) : x \in Range(made')}]

\* ---------------------------------------------------------------- documentation
DocOf(d) == [type |-> IF d.kind = "query" THEN "QUERY_PARAMETER" ELSE "METHOD", name |-> IF d.kind = "query" THEN d.name ELSE "-", path |-> "/v1/things",
             says |-> CASE d.kind = "query" -> {<<"description", d.text>>} [] d.kind = "tags" -> {<<"tags", d.tags>>} [] d.kind = "summary" -> {<<"tags", d.tags>>, <<"summary", d.text>>} [] OTHER -> {<<"operationName", d.text>>}]
Doc(d) == out' = [kind |-> "documents", of |-> {DocOf(x) : x \in Range(made')}]

Init == /\ mode \in Modes /\ made = <<>> /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Fresh(x) == \A i \in 1..Len(made) : made[i].id # x.id
Do(a) == /\ act' = a /\ UNCHANGED mode
         /\ IF a.op = "finding" THEN /\ made' = made /\ mode = "findings" /\ out' = [kind |-> "finding", told |-> Told(a.x)]
            ELSE /\ Len(made) < Steps /\ mode = a.op /\ Fresh(a.x) /\ made' = Append(made, a.x)
                 /\ CASE a.op = "schedule" -> Schedule(a.x) [] a.op = "grant" -> Grant(a.x) [] a.op = "subscribe" -> Subscribe(a.x) [] a.op = "plan" -> Plan(a.x)
                      [] a.op = "group" -> Group(a.x) [] OTHER -> Doc(a.x)
Actions == {[op |-> "schedule", x |-> x] : x \in Schedules} \cup {[op |-> "finding", x |-> x] : x \in Findings} \cup {[op |-> "grant", x |-> x] : x \in Grants}
           \cup {[op |-> "subscribe", x |-> x] : x \in Subscriptions} \cup {[op |-> "plan", x |-> x] : x \in Plans} \cup {[op |-> "group", x |-> x] : x \in Groups} \cup {[op |-> "document", x |-> x] : x \in Docs}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* nobody but the named distribution or user gets in, and a denial wins
Closed == mode = "grant" => \A c \in Callers, a \in Acts, t \in Things : Allowed(Range(made), c, a, t) => \E g \in Range(made) : WhoOf(g) = c /\ g.effect # "deny"
DenialWins == mode = "grant" => \A g \in Range(made) : g.effect = "deny" => \A a \in Acts, t \in Things : Matches(g, WhoOf(g), a, t) => ~Allowed(Range(made), WhoOf(g), a, t)
Invariants == Closed /\ DenialWins
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
