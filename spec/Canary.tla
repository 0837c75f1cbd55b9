------------------------------- MODULE Canary --------------------------------
(* Canaries: programs that watch a service from the outside (its addresses) or from  *)
(* the inside (counts of rows in its database), and the alarm that tells people.     *)
(* A run of a canary fails exactly when something it expects does not hold.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Modes, Keys, Paths, Checks, Answers, Counts, Queries, Holders, DbChecks, DbTimings, Builds, Steps
VARIABLES mode, key, n, bare, failed, plan, out, act
vars == <<mode, key, n, bare, failed, plan, out, act>>
View == <<mode, key, n, bare, failed, plan>>

\* ---------------------------------------------------------------- answers of the watched service
\* a: [status, ctype, cors, header, enc, body, cut]; how the body was encoded, and how it was cut in pieces, makes no difference
Good(a) == a.status \in 200..299
Parses(b) == b \notin {"text", "jpeg"}
\* c: what is expected of the answer
\* a check of the content type is of the whole type, with its character set
Typed(a, t) == Good(a) /\ a.cors /\ a.ctype = t
Fits(c, a) ==
  CASE c = "type json"       -> Typed(a, "application/json")
    [] c = "type csv"        -> Typed(a, "text/csv")
    [] c = "two items"       -> a.body = "array"
    [] c = "has euro"        -> a.body \in {"array", "text"}
    [] c = "json, two items" -> Typed(a, "application/json") /\ a.body = "array"
    [] c = "csv, has euro"   -> Typed(a, "text/csv") /\ a.body \in {"array", "text"}
    [] c = "jpeg"            -> Typed(a, "image/jpeg")
    [] c = "geojson"         -> Typed(a, "application/geo+json;charset=UTF-8") /\ a.body \in {"collection", "collection of one"}
    [] c = "geojson, one"    -> Typed(a, "application/geo+json;charset=UTF-8") /\ a.body = "collection of one"
    [] c = "header"          -> a.header
    [] c = "no header"       -> ~a.header
    [] c = "array or object" -> Parses(a.body)
Passes(x, a) ==
  CASE x.kind = "200"    -> a.status = 200 /\ \A i \in 1..Len(x.all) : Fits(x.all[i], a)
    [] x.kind = "status" -> a.status = x.status /\ \A i \in 1..Len(x.all) : Fits(x.all[i], a)
    [] x.kind = "404"    -> a.status = 404 /\ a.ctype = "text/plain"
    [] x.kind = "400"    -> a.status = 400 /\ a.ctype = "text/plain"
    [] x.kind = "403"    -> a.status = 403 /\ a.ctype = x.ctype
\* what the service sees of a check
Asked(x, k, w) == [host |-> "the.host", path |-> w, method |-> "GET", protocol |-> "https:", user |-> "internal-digitraffic-canary",
                key |-> IF x.kind = "403" THEN "-" ELSE k]

\* ---------------------------------------------------------------- counts in the database
Meets(c, count) == CASE c = "zero" -> count = 0 [] c = "one" -> count = 1 [] c = "one or more" -> count >= 1
NoCount == -1    \* the query answers with something else than a count
NoRow   == -2    \* the query answers nothing
DbBad == -3      \* the query fails

\* ---------------------------------------------------------------- what is deployed
\* b: [kind, via, vpc, group, secret, name, alarm, rate, env, hostkey, invpc, given]
None == "-"
HasTopic(b) == (b.alarm.topic # None) \/ (b.kind = "db" /\ b.via = "v2" /\ ~b.alarm.given)
FullName(b) == (IF b.kind = "db" /\ b.via = "v2" /\ b.cname # None THEN b.cname ELSE "thing") \o (IF b.kind = "db" THEN "-db" ELSE "-url")
AlarmName(b) == IF b.alarm.name # None THEN b.alarm.name
                ELSE IF b.kind = "db" /\ b.via = "v2" /\ ~b.alarm.given THEN (IF b.cname \in {None, "thing"} THEN "Short" ELSE b.cname) \o "-DB-Alarm"
                ELSE (IF b.kind = "db" /\ b.via = "v2" /\ b.cname # None THEN b.cname ELSE "thing") \o "-alarm"
InVpc(b) == b.kind = "db" \/ b.invpc
Deployed(b) ==
  IF b.kind = "db" /\ ~b.secret THEN [kind |-> "refused"] ELSE
  [kind |-> "deployed", name |-> FullName(b), handler |-> IF b.kind = "db" /\ b.via = "v2" THEN "thing-db.handler" ELSE "thing.handler",
   every |-> IF b.rate > 0 THEN b.rate ELSE IF b.kind = "db" THEN 60 ELSE 15,
   starts |-> TRUE, runtime |-> IF b.runtime # None THEN b.runtime ELSE "syn-nodejs-puppeteer-13.0",
   env |-> (IF b.kind = "url" THEN {<<"hostname", IF b.env = "other host" THEN "other host" ELSE "host of the api">>} \cup (IF b.keys > 0 THEN {<<"apiKeyId", "first key">>} ELSE {})
                                   \cup (IF b.secret THEN {<<"secret", "the-secret">>} ELSE {})
            ELSE {<<"SECRET_ID", "the-secret">>, <<"DB_APPLICATION", "Synthetics-" \o FullName(b)>>})
           \cup (IF b.env = "more" THEN {<<"EXTRA", "yes">>} ELSE {}),
   vpc |-> IF ~InVpc(b) THEN "-" ELSE IF b.vpc THEN "vpc-1 subnets subnet-1,subnet-2" ELSE "none subnets ",
   groups |-> IF InVpc(b) /\ b.group THEN "sg-1" ELSE "",
   secret |-> IF b.kind = "db" \/ b.grant THEN {"secret"} ELSE {},
   bucket |-> TRUE,
   network |-> b.db, keys |-> b.kind = "url" \/ b.apigw,
   alarm |-> [name |-> AlarmName(b), below |-> IF b.alarm.threshold > 0 THEN b.alarm.threshold ELSE 100, periods |-> IF b.alarm.periods > 0 THEN b.alarm.periods ELSE 1,
              metric |-> "SuccessPercent of " \o FullName(b), to |-> IF b.alarm.topic # None THEN b.alarm.topic ELSE IF HasTopic(b) THEN "alarm-topic" ELSE "-"]]

\* ---------------------------------------------------------------- transitions
Init == /\ mode \in Modes /\ key \in (IF mode \in {"url", "created"} THEN Keys ELSE {"-"}) /\ n = 0 /\ bare = FALSE /\ failed = FALSE /\ plan = <<>>
        /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
\* w: the address; a token in it is not shown in the name of the step
Check(x, a, w) ==
  /\ mode \in {"url", "created"} /\ n < Steps
  /\ n' = n + 1 /\ bare' = (bare \/ x.kind = "403") /\ failed' = (failed \/ ~Passes(x, a)) /\ UNCHANGED <<mode, key, plan>>
  \* the step, and with it the run, fails exactly when the answer is not what was expected
  /\ out' = [kind |-> "checked", asked |-> Asked(x, key, w), ok |-> Passes(x, a), named |-> TRUE]
\* a check of counts takes only a query that counts
Query(q) == /\ mode = "db" /\ plan = <<>> /\ UNCHANGED <<mode, key, n, bare, failed, plan>>
            /\ out' = [kind |-> IF q \in {"SELECT Count(*) FROM t", "select count(*) from t", "select max(n), count(*) from t"} THEN "planned" ELSE "refused"]
Expect(c) == /\ mode = "db" /\ Len(plan) < Steps /\ plan' = Append(plan, c) /\ UNCHANGED <<mode, key, n, bare, failed>> /\ out' = [kind |-> "planned"]
\* h: through the proxy of the database or straight, always for reading only;
\* the counts found by the queries, in the order of the plan, up to the first that does not answer with a row
RunDb(f, t, h) ==
  /\ mode = "db" /\ n = 0 /\ n' = 1
  /\ LET broken == {i \in DOMAIN f : f[i] \in {NoRow, DbBad}}
         last == IF broken = {} THEN Len(plan) ELSE CHOOSE i \in broken : \A j \in broken : i <= j IN
     /\ failed' = (plan = <<>> \/ broken # {} \/ \E i \in DOMAIN f : f[i] = NoCount \/ ~Meets(plan[i], f[i]))
     /\ out' = [kind |-> "ran", ok |-> ~failed', steps |-> IF plan = <<>> THEN <<>> ELSE [i \in 1..(IF broken = {} THEN last ELSE last - 1) |-> f[i] # NoCount /\ Meets(plan[i], f[i])],
                 asked |-> last, from |-> IF last = 0 THEN "-" ELSE IF h = "proxy" THEN "the user pro" ELSE "the user ro"]
  /\ UNCHANGED <<mode, key, bare, plan>>
Deploy(b) == /\ mode = "infra" /\ n = 0 /\ n' = 1 /\ out' = Deployed(b) /\ UNCHANGED <<mode, key, bare, failed, plan>>
Do(a) == /\ CASE a.op = "check" -> Check(a.x, a.a, a.w) [] a.op = "expect" -> Expect(a.c) [] a.op = "run" -> RunDb(a.f, a.t, a.h) [] a.op = "query" -> Query(a.q) [] a.op = "deploy" -> Deploy(a.b)
         /\ act' = a
Actions == (IF mode \in {"url", "created"} THEN {[op |-> "check", x |-> x, a |-> a, w |-> w] : x \in Checks, a \in Answers, w \in Paths} ELSE {})
      \cup (IF mode = "db" THEN {[op |-> "expect", c |-> c] : c \in DbChecks} \cup {[op |-> "run", f |-> f, t |-> t, h |-> h] : f \in [1..Len(plan) -> Counts], t \in DbTimings, h \in Holders} \cup {[op |-> "query", q |-> q] : q \in Queries} ELSE {})
      \cup (IF mode = "infra" THEN {[op |-> "deploy", b |-> b] : b \in Builds} ELSE {})
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- invariants
\* a run that is reported to have succeeded saw nothing amiss, and the other way round
Honest == out.kind \in {"checked", "ran"} => (~out.ok => failed)
ZeroMeansZero == out.kind = "ran" /\ act.op = "run" /\ out.ok => \A i \in 1..Len(plan) : plan[i] = "zero" => act.f[i] = 0
Invariants == Honest /\ ZeroMeansZero
Obs == out'
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs, l |-> TLCGet("level")]))
=============================================================================
