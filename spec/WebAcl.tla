------------------------------- MODULE WebAcl --------------------------------
(* A web access control list, put together step by step with the builder and then    *)
(* deciding a stream of requests.  Rules that only count come before rules that      *)
(* block; inside the two groups the order of the steps is kept.  A rate-based rule   *)
(* counts, per client address (or per address and path), the requests that belong to *)
(* its group of users, and acts on those beyond its limit.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps,       \* names of the builder steps that may be taken
          MaxSteps,
          Plans,       \* sequences of steps taken before the first request (serving)
          Requests,    \* which requests may come
          MaxRequests

VARIABLES count, block, bodies, phase, hits, n, out, act
vars == <<count, block, bodies, phase, hits, n, out, act>>
View == <<count, block, bodies, phase, hits, n>>

\* ---------------------------------------------------------------- builder
None == -1
Body(l) == "Request rate is limited to " \o ToString(l) \o " requests in a 5 minute window."
Managed(nm, excl) == [name |-> "AWS-AWSManagedRules" \o nm, does |-> "group", group |-> "AWSManagedRules" \o nm, excluded |-> excl]
CommonExcluded == {"NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"}
Rate(nm, does, key, lim, who, by, path) == [name |-> nm, does |-> does, body |-> key, limit |-> lim, who |-> who, by |-> by, path |-> path]
\* who: "named" users identify themselves with a digitraffic-user header, "anonymous" ones do not
Throttle(who, by, lim) ==
  LET u == IF who = "named" THEN "DIGITRAFFIC_USER" ELSE "ANONYMOUS_USER"
      v == IF who = "named" THEN "DigitrafficUser" ELSE "AnonymousUser"
      k == (IF by = "ip" THEN "IP_THROTTLE_" ELSE "IP_PATH_THROTTLE_") \o u \o "_" \o ToString(lim)
  IN Rate((IF by = "ip" THEN "ThrottleRuleWith" ELSE "ThrottleRuleIPQueryWith") \o v, "429", k, lim, who, by, "-")
ThrottleByPath(lim, path) == Rate("ThrottleRuleWithAnonymousUserByPath", "429", "IP_THROTTLE_ANONYMOUS_USER_BY_PATH_" \o ToString(lim), lim, "anonymous", "ip", path)
Count(who, by, lim) ==
  LET v == IF who = "named" THEN "DigitrafficUser" ELSE "AnonymousUser"
  IN Rate((IF by = "ip" THEN "CountRuleWith" ELSE "CountRuleIPQueryWith") \o v \o ToString(lim), "count", "-", lim, who, by, "-")
All == <<"CommonRuleSet", "AmazonIpReputationList", "KnownBadInputsRuleSet", "SQLiRuleSet">>

Many == {"172.16.0." \o ToString(i) : i \in 1..20}
\* the rules a step stands for, the counting ones and the blocking ones
StepRules(s) ==
  CASE s = "managedAll"   -> [i \in 1..4 |-> Managed(All[i], IF i = 1 THEN CommonExcluded ELSE {})]
    [] s = "managedTwo"   -> <<Managed("CommonRuleSet", CommonExcluded \cup {"GenericLFI_BODY"}), Managed("SQLiRuleSet", {"SQLi_BODY"})>>
    [] s = "managedBad"   -> <<Managed("AmazonIpReputationList", {"AWSManagedIPDDoSList"}), Managed("KnownBadInputsRuleSet", {"Log4JRCE_BODY"})>>
    [] s = "managedNone"  -> <<>>
    [] s = "blacklist"    -> <<[name |-> "IpBlocklist", does |-> "block", ips |-> Many \cup {"10.0.0.1", "10.0.0.9"}]>>
    [] s = "whitelist"    -> <<[name |-> "IpAllowlist", does |-> "block", notips |-> Many \cup {"10.0.0.1", "10.0.0.2"}]>>
    [] s = "query"        -> <<[name |-> "QueryStringSizeRestriction", does |-> "block", size |-> 10]>>
    [] s = "userIp"       -> <<Throttle("named", "ip", 2)>>
    [] s = "userIp0"      -> <<Throttle("named", "ip", 0)>>
    [] s = "userIpPath0"  -> <<Throttle("named", "ippath", 0)>>
    [] s = "anonIpPath0"  -> <<Throttle("anonymous", "ippath", 0)>>
    [] s = "userIp1"      -> <<Throttle("named", "ip", 1)>>
    [] s = "userIpPath"   -> <<Throttle("named", "ippath", 1)>>
    [] s = "anonIp"       -> <<Throttle("anonymous", "ip", 2)>>
    [] s = "anonIp0"      -> <<Throttle("anonymous", "ip", 0)>>
    [] s = "anonIpPath"   -> <<Throttle("anonymous", "ippath", 1)>>
    [] s = "anonByPath"   -> <<ThrottleByPath(1, "^/api/.*$")>>
    [] s = "countUserIp"  -> <<Count("named", "ip", 1)>>
    [] s = "countUserIp2" -> <<Count("named", "ip", 2)>>
    [] s = "countUserIpPath" -> <<Count("named", "ippath", 1)>>
    [] s = "countAnonIp"  -> <<Count("anonymous", "ip", 1)>>
    [] s = "countAnonIpPath" -> <<Count("anonymous", "ippath", 1)>>
    [] s = "ownThrottle"  -> <<Rate("Own", "429", "OWN", 1, "anonymous", "ip", "/own")>>
    [] s = "ownCount"     -> <<Rate("OwnCount", "count", "-", 1, "named", "ippath", "own")>>
    [] OTHER -> <<>>      \* steps without a limit, path or list add nothing
\* response bodies a step defines: those of its throttles unless defined already, or the one it sets
StepBodies(s, b) ==
  IF s = "body" THEN [k \in DOMAIN b \cup {"OWN"} |-> IF k = "OWN" THEN "slow down" ELSE b[k]]
  ELSE IF s = "bodyTaken" THEN [k \in DOMAIN b \cup {"IP_THROTTLE_ANONYMOUS_USER_2"} |-> IF k = "IP_THROTTLE_ANONYMOUS_USER_2" THEN "calm down" ELSE b[k]]
  ELSE LET rs == StepRules(s)
           add == {i \in 1..Len(rs) : rs[i].does = "429" /\ rs[i].body # "OWN" /\ rs[i].body \notin DOMAIN b}
       IN [k \in DOMAIN b \cup {rs[i].body : i \in add} |-> IF k \in DOMAIN b THEN b[k] ELSE LET i == CHOOSE i \in add : rs[i].body = k IN Body(rs[i].limit)]
Counts(rs) == SelectSeq(rs, LAMBDA r : r.does = "count")
Others(rs) == SelectSeq(rs, LAMBDA r : r.does # "count")

NoBodies == [k \in {} |-> ""]
Rules == count \o block
Unique(rs) == Cardinality({rs[i].name : i \in 1..Len(rs)}) = Len(rs)

RECURSIVE Take(_, _)
Take(ss, acc) == IF ss = <<>> THEN acc
                 ELSE Take(Tail(ss), [count |-> acc.count \o Counts(StepRules(Head(ss))), block |-> acc.block \o Others(StepRules(Head(ss))), bodies |-> StepBodies(Head(ss), acc.bodies)])
Empty == [count |-> <<>>, block |-> <<>>, bodies |-> NoBodies]

Init == /\ phase = "building" /\ count = <<>> /\ block = <<>> /\ bodies = NoBodies
        /\ hits = [k \in {} |-> 0] /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]

Add(s) == /\ phase = "building" /\ n < MaxSteps /\ n' = n + 1
          /\ count' = count \o Counts(StepRules(s)) /\ block' = block \o Others(StepRules(s))
          /\ bodies' = StepBodies(s, bodies)
          /\ out' = [kind |-> "none"] /\ UNCHANGED <<phase, hits>>

\* building fails without rules or with two rules of one name; priorities run from 0 without gaps
Build0(c, b, bd) ==
  LET rs == c \o b IN
  IF rs = <<>> THEN [kind |-> "refused", why |-> "no rules"]
  ELSE IF ~Unique(rs) THEN [kind |-> "refused", why |-> "names"]
  ELSE [kind |-> "built", rules |-> [i \in 1..Len(rs) |-> [name |-> rs[i].name, metric |-> rs[i].name, priority |-> i - 1,
              action |-> CASE rs[i].does = "group" -> "group" [] rs[i].does = "count" -> "count" [] rs[i].does = "block" -> "403" [] OTHER -> "429 " \o rs[i].body,
              limit |-> IF rs[i].does \in {"count", "429"} THEN rs[i].limit ELSE None]],
        bodies |-> bd, default |-> "allow"]
Build == /\ phase = "building" /\ phase' = (IF Build0(count, block, bodies).kind = "built" THEN "serving" ELSE "refused")
         /\ out' = Build0(count, block, bodies) /\ n' = 0 /\ UNCHANGED <<count, block, bodies, hits>>

\* a whole list at once (start of the serving behaviours)
Plan(p) == /\ phase = "building" /\ n = 0
           /\ LET r == Take(p, Empty) IN count' = r.count /\ block' = r.block /\ bodies' = r.bodies /\ out' = Build0(r.count, r.block, r.bodies)
           /\ phase' = "serving" /\ n' = 0 /\ UNCHANGED hits

\* ---------------------------------------------------------------- serving
\* a request: ip, path (norm: the path it stands for, in lower case), user header ("absent", "empty", "named", "short": of one letter), size of the query, what a managed group would find in it
In(r, q) ==  \* whether q belongs to the users and paths that the rule is about
  /\ (r.who = "named") = (q.user \in {"named", "short"})
  /\ r.path = "-" \/ q.matches = r.path
Key(r, q) == IF r.by = "ip" THEN q.ip ELSE q.ip \o " " \o q.norm
HitKey(i, q) == ToString(i) \o " " \o Key(Rules[i], q)
Hits(k) == IF k \in DOMAIN hits THEN hits[k] ELSE 0
Over(i, q) == Hits(HitKey(i, q)) >= Rules[i].limit
\* does rule i end the evaluation for q?
Stops(i, q) ==
  LET r == Rules[i] IN
  CASE r.does = "group" -> q.threat.group = r.group /\ q.threat.rule \notin r.excluded
    [] r.does = "count" -> FALSE
    [] r.does = "429" -> In(r, q) /\ Over(i, q)
    [] OTHER -> IF "ips" \in DOMAIN r THEN q.ip \in r.ips ELSE IF "notips" \in DOMAIN r THEN q.ip \notin r.notips ELSE q.size > r.size
IsRate(i) == Rules[i].does \in {"count", "429"}
Ask(q) ==
  /\ phase = "serving" /\ n < MaxRequests /\ n' = n + 1
  /\ LET stop == {i \in 1..Len(Rules) : Stops(i, q)}
         last == IF stop = {} THEN Len(Rules) ELSE CHOOSE i \in stop : \A j \in stop : i <= j
         seen == {i \in 1..last : IsRate(i) /\ In(Rules[i], q)}
         ks == {HitKey(i, q) : i \in seen}
     IN /\ hits' = [k \in DOMAIN hits \cup ks |-> IF k \in ks THEN Hits(k) + 1 ELSE hits[k]]
        /\ out' = [kind |-> "verdict",
                   verdict |-> IF stop = {} THEN "allow" ELSE Rules[last].name,
                   status |-> IF stop = {} THEN 200 ELSE IF Rules[last].does = "429" THEN 429 ELSE 403,
                   body |-> IF stop # {} /\ Rules[last].does = "429" THEN (IF Rules[last].body \in DOMAIN bodies THEN bodies[Rules[last].body] ELSE "undefined") ELSE "-",
                   counted |-> LET c == SelectSeq([i \in 1..last |-> i], LAMBDA i : i \in seen /\ Rules[i].does = "count" /\ Over(i, q)) IN [i \in 1..Len(c) |-> Rules[c[i]].name]]
  /\ UNCHANGED <<count, block, bodies, phase>>

Do(a) == /\ act' = a
         /\ CASE a.op = "add" -> Add(a.step) [] a.op = "build" -> Build [] a.op = "plan" -> Plan(a.steps) [] OTHER -> Ask(a.q)
Actions == {[op |-> "add", step |-> s] : s \in Steps} \cup (IF Steps # {} THEN {[op |-> "build"]} ELSE {})
           \cup {[op |-> "plan", steps |-> p] : p \in Plans} \cup {[op |-> "ask", q |-> q] : q \in Requests}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
CountingFirst == phase = "serving" => \A i, j \in 1..Len(Rules) : Rules[i].does = "count" /\ Rules[j].does # "count" => i < j
BodiesDefined == \A i \in 1..Len(block) : block[i].does = "429" /\ block[i].body # "OWN" => block[i].body \in DOMAIN bodies
\* no request escapes: each is a named or an anonymous user's, and a limit on both limits it
NeverBoth == \A q \in Requests : \A i, j \in 1..Len(Rules) :
  IsRate(i) /\ IsRate(j) /\ Rules[i].path = "-" /\ Rules[j].path = "-" /\ Rules[i].who # Rules[j].who => (In(Rules[i], q) # In(Rules[j], q))
\* nobody gets through a per-address limit more often than it says
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN hits[x] + Sum(S \ {x})
Invariants == CountingFirst /\ BodiesDefined /\ NeverBoth
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
