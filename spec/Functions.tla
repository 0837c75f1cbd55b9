------------------------------ MODULE Functions ------------------------------
(* Functions put together with the builder (or created by the older helpers), what   *)
(* they may do, and who is told when one misbehaves.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stacks,     \* kinds of stacks
          Makers,     \* ways of making the function: "plain", "create", "monitored", "v2", "db", ...
          Steps, MaxSteps,
          Readings,   \* what may be measured once the function runs
          MaxReadings,
          Names       \* names of functions
VARIABLES stack, maker, cfg, phase, hist, n, out, act
vars == <<stack, maker, cfg, phase, hist, n, out, act>>
View == <<stack, maker, cfg, phase, hist, n>>

\* a stack: production or not, with a secret or not, with a network or not
StackOf(k) == CASE k = "prod"      -> [production |-> TRUE,  secret |-> TRUE,  vpc |-> TRUE]
                [] k = "test"      -> [production |-> FALSE, secret |-> TRUE,  vpc |-> TRUE]
                [] k = "testBare"  -> [production |-> FALSE, secret |-> FALSE, vpc |-> FALSE]
                [] k = "prodBare"  -> [production |-> TRUE,  secret |-> FALSE, vpc |-> FALSE]
                [] OTHER           -> [production |-> FALSE, secret |-> TRUE,  vpc |-> FALSE]
Short == "T"
\* the name of a function: the short name and the given name in PascalCase
NameOf(nm) == Short \o "-" \o (CASE nm = "update-things" -> "UpdateThings" [] nm = "get-v2-sites" -> "GetV2Sites" [] nm = "plain" -> "Plain" [] nm = "snake_case_name" -> "SnakeCaseName" [] nm = "update3things" -> "Update3Things")
SecretId == "the-secret"

\* ---------------------------------------------------------------- what is configured
Off == [on |-> FALSE]
Alarm(th, ev, dp, gt) == [on |-> TRUE, threshold |-> th, periods |-> ev, points |-> dp, strict |-> gt]
Default == [db |-> TRUE, secret |-> TRUE, timeout |-> 60, memory |-> 128, concurrency |-> 2, env |-> [k \in {} |-> ""], handler |-> "update-things.handler",
            description |-> "-", code |-> "update-things", layers |-> 0, role |-> FALSE, sgs |-> <<>>, allowed |-> <<>>, policies |-> <<>>, runtime |-> "nodejs24.x", arch |-> "arm64",
            \* thresholds of durations: -1 the time limit, -2 85 % of it
            duration |-> Alarm(-1, 1, 1, FALSE), warning |-> Alarm(-2, 1, 1, FALSE), errors |-> Alarm(1, 1, 1, FALSE), throttles |-> Alarm(1, 1, 1, FALSE)]
Set(c, k, v) == [c EXCEPT ![k] = v]
WithEnv(c, e) == [c EXCEPT !.env = [k \in DOMAIN c.env \cup DOMAIN e |-> IF k \in DOMAIN e THEN e[k] ELSE c.env[k]]]
StepOf(c, s) ==
  CASE s = "noDb"     -> [c EXCEPT !.db = FALSE]
    [] s = "noSecret" -> [c EXCEPT !.secret = FALSE]
    [] s = "timeout"  -> [c EXCEPT !.timeout = 10]
    [] s = "timeout900" -> [c EXCEPT !.timeout = 900]
    [] s = "memory"   -> [c EXCEPT !.memory = 1024]
    [] s = "concurrency" -> [c EXCEPT !.concurrency = 7]
    [] s = "concurrency0" -> [c EXCEPT !.concurrency = 0]
    [] s = "envA"     -> WithEnv(c, [A |-> "1", B |-> "1"])
    [] s = "envB"     -> WithEnv(c, [B |-> "2", DB_APPLICATION |-> "mine"])
    [] s = "envSecret" -> WithEnv(c, [SECRET_ID |-> "other"])
    [] s = "handler"  -> [c EXCEPT !.handler = "main.run"]
    [] s = "asset"    -> [c EXCEPT !.code = "sub/other-things", !.handler = "other-things.handler"]
    [] s = "assetLess" -> [c EXCEPT !.code = "sub/other-things without extra", !.handler = "other-things.handler"]
    [] s = "inline"   -> [c EXCEPT !.code = "inline"]
    [] s = "layer"    -> [c EXCEPT !.layers = @ + 1]
    [] s = "role"     -> [c EXCEPT !.role = TRUE]
    [] s = "describe" -> [c EXCEPT !.description = "what it does"]
    [] s = "sg"       -> [c EXCEPT !.sgs = Append(@, "sg-own")]
    [] s = "x86"      -> [c EXCEPT !.arch = "x86_64", !.runtime = "nodejs22.x"]
    [] s = "allow"    -> [c EXCEPT !.allowed = @ \o <<"s3:GetObject", "s3:PutObject">>]
    [] s = "allowMore" -> [c EXCEPT !.allowed = @ \o <<"sqs:SendMessage">>]
    [] s = "allowAll" -> [c EXCEPT !.allowed = @ \o <<"*">>]
    [] s = "allowAllHidden" -> [c EXCEPT !.allowed = @ \o <<"logs:PutLogEvents", "*">>]
    [] s = "policy"   -> [c EXCEPT !.policies = Append(@, [actions |-> <<"sns:Publish">>, resources |-> <<"arn:aws:sns:::topic">>, effect |-> "Allow"])]
    [] s = "policies3" -> [c EXCEPT !.policies = @ \o <<[actions |-> <<"s3:GetObject">>, resources |-> <<"arn:aws:s3:::one/x">>, effect |-> "Allow"], [actions |-> <<"s3:PutObject", "s3:DeleteObject">>, resources |-> <<"arn:aws:s3:::two/x", "arn:aws:s3:::three/x">>, effect |-> "Allow"], [actions |-> <<"sqs:SendMessage">>, resources |-> <<"*">>, effect |-> "Deny"]>>]
    [] s = "policyDeny" -> [c EXCEPT !.policies = Append(@, [actions |-> <<"sns:Subscribe">>, resources |-> <<"*">>, effect |-> "Deny"])]
    [] s = "alarmsThrottle" -> [c EXCEPT !.duration = Default.duration, !.warning = Default.warning, !.errors = Default.errors, !.throttles = Off]
    [] s = "alarmsErrors"   -> [c EXCEPT !.duration = Default.duration, !.warning = Default.warning, !.errors = Alarm(3, 3, 2, TRUE), !.throttles = Default.throttles]
    [] s = "alarmsDuration" -> [c EXCEPT !.duration = Off, !.warning = Alarm(-2, 2, 2, TRUE), !.errors = Default.errors, !.throttles = Default.throttles]
    [] s = "alarmsWarning"  -> [c EXCEPT !.duration = Alarm(500, 2, 1, FALSE), !.warning = Off, !.errors = Default.errors, !.throttles = Alarm(10, 1, 1, TRUE)]
    [] s = "alarmsZero"     -> [c EXCEPT !.duration = Alarm(0, 1, 1, TRUE), !.warning = Alarm(0, 2, 2, FALSE), !.errors = Alarm(0, 1, 1, TRUE), !.throttles = Alarm(0, 1, 1, TRUE)]
    [] s = "alarmsOwn"      -> [c EXCEPT !.duration = Alarm(700, 3, 2, FALSE), !.warning = Alarm(300, 1, 1, TRUE), !.errors = Alarm(1, 2, 2, FALSE), !.throttles = Alarm(3, 2, 1, FALSE)]
    [] s = "alarmsNone"     -> [c EXCEPT !.duration = Off, !.warning = Off, !.errors = Off, !.throttles = Off]
    [] OTHER -> c
\* which of the steps a maker knows
IsBuilder(m) == m \in {"plain", "create"}
Knows(m, s) == IF IsBuilder(m) THEN TRUE
               ELSE s \in {"timeout", "timeout900", "memory", "concurrency", "concurrency0", "x86", "alarmsThrottle", "alarmsErrors", "alarmsDuration", "alarmsWarning", "alarmsNone", "alarmsZero", "alarmsOwn"}
                    \/ s \in {"envA", "role"} \/ (m = "monitored" /\ s = "noTimeout")
                    \/ (m \in {"monitored", "v2"} /\ s = "disable")
Start(m) == CASE m = "plain" -> [Default EXCEPT !.db = FALSE, !.secret = FALSE]
              [] m = "create" -> Default
              [] OTHER -> [Default EXCEPT !.secret = FALSE, !.db = (m # "monitored")]

Init == /\ stack \in Stacks /\ maker \in Makers /\ cfg = Start(maker) /\ phase = "building" /\ hist = <<>> /\ n = 0
        /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Configure(s) == /\ phase = "building" /\ n < MaxSteps /\ Knows(maker, s) /\ n' = n + 1
                /\ cfg' = CASE s = "noTimeout" -> [cfg EXCEPT !.timeout = 0]
                            [] s = "disable" -> [cfg EXCEPT !.duration = Off, !.warning = Off, !.errors = Off, !.throttles = Off, !.description = "disabled"]
                            [] OTHER -> StepOf(cfg, s)
                /\ out' = [kind |-> "none"] /\ UNCHANGED <<stack, maker, phase, hist>>

\* ---------------------------------------------------------------- what comes out
S == StackOf(stack)
HasWild == \E i \in 1..Len(cfg.allowed) : cfg.allowed[i] = "*"
Refusal ==
  IF IsBuilder(maker) THEN
     IF cfg.db /\ ~S.vpc THEN "no database group"
     ELSE IF cfg.sgs # <<>> /\ ~S.vpc THEN "no network"
     ELSE IF cfg.secret /\ ~S.secret THEN "no secret"
     ELSE IF HasWild THEN "wildcard" ELSE "-"
  ELSE IF maker = "monitored" /\ cfg.description = "disabled" /\ S.production THEN "alarms disabled in production"
  ELSE IF cfg.timeout = 0 /\ (cfg.duration.on \/ cfg.warning.on) THEN "no timeout"
  ELSE IF maker = "db" /\ ~S.secret THEN "no secret" ELSE "-"
NeedsSecret == IF IsBuilder(maker) THEN cfg.secret ELSE maker = "db"
Env == LET own == IF IsBuilder(maker)
                  THEN [k \in (IF cfg.secret THEN {"SECRET_ID"} ELSE {}) \cup (IF cfg.db THEN {"DB_APPLICATION"} ELSE {}) |-> IF k = "SECRET_ID" THEN SecretId ELSE Short]
                  ELSE IF maker = "db" /\ DOMAIN cfg.env = {} THEN \* an environment of its own takes the place of the usual one
                       [k \in {"DB_APPLICATION", "SECRET_ID"} |-> IF k = "SECRET_ID" THEN SecretId ELSE Short]
                  ELSE [k \in {} |-> ""]
       IN [k \in DOMAIN own \cup DOMAIN cfg.env |-> IF k \in DOMAIN cfg.env THEN cfg.env[k] ELSE own[k]]
Groups == IF ~S.vpc \/ maker = "monitored" THEN <<>>
          ELSE IF IsBuilder(maker) THEN cfg.sgs \o (IF cfg.db THEN <<"sg-db">> ELSE IF cfg.sgs = <<>> THEN <<"generated">> ELSE <<>>)
          ELSE <<"sg-db">>
\* the permissions of its role: what it reads its secret with if it has one, and what was asked for
Grant(e, a, r) == e \o " " \o a \o " " \o r
Range(q) == {q[i] : i \in 1..Len(q)}
Grants == (IF NeedsSecret THEN {Grant("Allow", x, "the secret") : x \in {"secretsmanager:GetSecretValue", "secretsmanager:DescribeSecret"}} ELSE {})
          \cup UNION {{Grant(p.effect, x, y) : x \in Range(p.actions), y \in Range(p.resources)} : p \in Range(cfg.policies)}
          \cup {Grant("Allow", x, "*") : x \in Range(cfg.allowed)}
AlarmOf(m) == cfg[m]
AlarmNames == [duration |-> "Duration alarm", warning |-> "Duration warning", errors |-> "Errors alarm", throttles |-> "Throttles alarm"]
Made == [kind |-> "made", name |-> (IF maker = "monitored" THEN "Given" ELSE "T-UpdateThings"),
         timeout |-> IF cfg.timeout = 0 THEN -1 ELSE cfg.timeout, memory |-> cfg.memory, concurrency |-> cfg.concurrency, env |-> Env, handler |-> cfg.handler,
         description |-> IF cfg.description = "disabled" THEN "-" ELSE cfg.description,
         code |-> IF maker = "monitored" THEN "inline" ELSE cfg.code, layers |-> cfg.layers, role |-> IF cfg.role THEN "given" ELSE "own", groups |-> Groups, subnets |-> (S.vpc /\ maker # "monitored"), grants |-> Grants,
         runtime |-> cfg.runtime, arch |-> cfg.arch, logs |-> (IF maker = "monitored" THEN "-" ELSE "/T/lambda/T-UpdateThings 365"),
         alarms |-> [m \in {"duration", "warning", "errors", "throttles"} |-> IF cfg[m].on THEN "Road S " \o (IF maker = "monitored" THEN "Given" ELSE "T-UpdateThings") \o " " \o AlarmNames[m] ELSE "-"]]
Build == /\ phase = "building"
         /\ IF Refusal # "-" THEN phase' = "refused" /\ out' = [kind |-> "refused", why |-> Refusal]
            ELSE phase' = "running" /\ out' = Made
         /\ n' = 0 /\ UNCHANGED <<stack, maker, cfg, hist>>

\* ---------------------------------------------------------------- who is told
\* a reading: of the duration in thousandths of the time limit, of errors, or of throttles
Limit == cfg.timeout * 1000
Ms(r) == (r.v * cfg.timeout)
Threshold(al) == CASE al.threshold = -1 -> Limit [] al.threshold = -2 -> cfg.timeout * 850 [] OTHER -> al.threshold
Watches(m, r) == (m \in {"duration", "warning"} /\ r.metric = "Duration") \/ (m = "errors" /\ r.metric = "Errors") \/ (m = "throttles" /\ r.metric = "Throttles")
ValueOf(r) == IF r.metric = "Duration" THEN Ms(r) ELSE r.v
Breach(al, r) == IF al.strict THEN ValueOf(r) > Threshold(al) ELSE ValueOf(r) >= Threshold(al)
Last(s, k) == SubSeq(s, (IF Len(s) > k THEN Len(s) - k ELSE 0) + 1, Len(s))
Rings(m, h) == LET al == cfg[m] w == IF al.on THEN Last(SelectSeq(h, LAMBDA r : Watches(m, r)), al.periods) ELSE <<>>
               IN al.on /\ Cardinality({i \in 1..Len(w) : Breach(al, w[i])}) >= al.points
\* a warning goes to the topic of warnings; an alarm to the one of alarms in production, and else to the one of warnings
TopicOf(m) == IF m # "warning" /\ S.production THEN "alarm" ELSE "warning"
Kinds == <<"duration", "warning", "errors", "throttles">>
Read(r) == /\ phase = "running" /\ n < MaxReadings /\ n' = n + 1
           /\ IF hist = <<>> THEN TRUE ELSE hist[1].metric = r.metric
           /\ hist' = Append(hist, r)
           /\ out' = [kind |-> "rings", rings |-> [m \in {"duration", "warning", "errors", "throttles"} |-> IF Rings(m, hist') THEN TopicOf(m) ELSE "-"]]
           /\ UNCHANGED <<stack, maker, cfg, phase>>

\* only the name: whichever way the function is made
Named(nm) == /\ phase = "building" /\ n = 0 /\ stack = "test" /\ maker # "monitored" /\ phase' = "named" /\ out' = [kind |-> "named", name |-> NameOf(nm), given |-> "mine"] /\ UNCHANGED <<stack, maker, cfg, hist, n>>
\* the secret of a stack given to several functions made without it
GrantSeveral(k) == /\ phase = "building" /\ n = 0 /\ maker = "plain" /\ phase' = "named" /\ UNCHANGED <<stack, maker, cfg, hist, n>>
                   /\ out' = IF S.secret THEN [kind |-> "granted", each |-> [i \in 1..k |-> {Grant("Allow", x, "the secret") : x \in {"secretsmanager:GetSecretValue", "secretsmanager:DescribeSecret"}}]]
                             ELSE [kind |-> "refused", why |-> "no secret"]
Do(a) == /\ act' = a /\ CASE a.op = "name" -> Named(a.name) [] a.op = "grant" -> GrantSeveral(a.count) [] a.op = "step" -> Configure(a.step) [] a.op = "build" -> Build [] OTHER -> Read(a.r)
Actions == {[op |-> "name", name |-> nm] : nm \in Names} \cup {[op |-> "step", step |-> s] : s \in Steps} \cup {[op |-> "build"]} \cup (IF Names = {} THEN {} ELSE {[op |-> "grant", count |-> k] : k \in 1..3}) \cup {[op |-> "read", r |-> r] : r \in Readings}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Quiet == ~S.production /\ out.kind = "rings" => \A m \in DOMAIN out.rings : out.rings[m] # "alarm"
LeastPrivilege == out.kind = "made" => Grant("Allow", "*", "*") \notin out.grants
NoSecretUnlessAsked == out.kind = "made" /\ ~NeedsSecret => Grant("Allow", "secretsmanager:GetSecretValue", "the secret") \notin out.grants
DefaultsWatch == out.kind = "rings" /\ cfg.duration = Default.duration /\ cfg.warning = Default.warning => (out.rings["duration"] # "-" => out.rings["warning"] # "-")
Invariants == Quiet /\ LeastPrivilege /\ NoSecretUnlessAsked /\ DefaultsWatch
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
