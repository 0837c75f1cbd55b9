-------------------------------- MODULE Edge ---------------------------------
(* Requests through the distributions of a stack (other/cloudfront): which behaviour   *)
(* takes a request, who is let in, what is served from the cache, what the origin is    *)
(* asked, and what the client gets. A distribution is described by the steps that made   *)
(* it; what it does with a request is worked out from them here.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stacks,      \* what may be built: records [id, dists]
          Requests(_), \* the requests tried on it
          Ticks(_),    \* the times that may pass on it
          MaxCache
VARIABLES stack, cache, out, act
vars == <<stack, cache, out, act>>
View == <<stack, cache>>
Range(f) == {f[i] : i \in DOMAIN f}

\* ---------------------------------------------------------------- texts
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE NextSlash(_, _)
NextSlash(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE NextSlash(s, i + 1)
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE LastSlash(s, i - 1)
LastPart(s) == SubSeq(s, LastSlash(s, Len(s)), Len(s))
RECURSIVE Without(_, _)
Without(s, n) == IF n = 0 THEN s ELSE LET i == NextSlash(s, 2) IN Without(IF i = 0 THEN s ELSE SubSeq(s, i, Len(s)), n - 1)
Slashed(p) == IF StartsWith(p, "/") \/ p = "*" THEN p ELSE "/" \o p
Fits(path, pattern) == LET p == Slashed(pattern) IN
  IF EndsWith(p, "*") THEN StartsWith(path, SubSeq(p, 1, Len(p) - 1)) ELSE path = p

\* ---------------------------------------------------------------- what a behaviour is after its steps
\* handlers: viewer request, viewer response, origin request, origin response
Plain(kind, host) == [methods |-> "read", key |-> "-", ttl |-> 60, timeout |-> 30, headers |-> <<>>, keys |-> <<>>, vreq |-> "-", vres |-> "-", oreq |-> "-", ores |-> "-", fn |-> {},
                type |-> kind, host |-> host, ips |-> {}, cut |-> 0, to |-> "-", cam |-> "-", bad |-> FALSE]
\* at each event there is one handler at most
Set(b, field, h) == IF b[field] = "-" THEN [b EXCEPT ![field] = h] ELSE [b EXCEPT !.bad = TRUE]
SetFn(b, field, h) == [Set(b, field, h) EXCEPT !.fn = @ \cup {field}]
Gzip(b) == Set(b, "vreq", "gzip")
Cors(b) == Set(b, "vres", "cors")
Key(b, k) == IF k = "-" THEN b ELSE [b EXCEPT !.key = k]
Maker(x) ==
  CASE x.kind = "api" -> Key(Cors(Gzip(Plain("api", x.host))), x.key)
    [] x.kind = "apiPlain" -> [Key(Plain("api", x.host), x.key) EXCEPT !.methods = "all"]
    [] x.kind = "nginx" -> Gzip(Cors(Plain("http", x.host)))
    [] x.kind = "nginxPlain" -> Plain("http", x.host)
    [] x.kind = "mqtt" -> Plain("http", x.host)
    [] x.kind = "vpc" -> Gzip(Cors(Plain("vpc", x.host)))
    [] x.kind = "s3" -> Plain("s3", x.host)
    [] x.kind = "swagger" -> SetFn(Plain("s3", x.host), "vreq", "index")
    [] OTHER -> [SetFn(Plain("https", "www.digitraffic.fi"), "vreq", "redirect") EXCEPT !.to = x.host]
Step(b, m) ==
  CASE m.m = "ip" -> [Set(b, "vreq", "ip") EXCEPT !.ips = m.ips]
    [] m.m = "ungzip" -> IF "vreq" \in b.fn THEN b ELSE [b EXCEPT !.vreq = "-"]
    [] m.m = "gzip" -> Gzip(b)
    [] m.m = "cors" -> Cors(b)
    [] m.m = "corsFn" -> SetFn(b, "vres", "cors")
    [] m.m = "cam" -> [Cors(Set(Set(b, "oreq", "cam"), "ores", "cam")) EXCEPT !.cam = m.s]
    [] m.m = "cut" -> [SetFn(b, "vreq", "cut") EXCEPT !.cut = m.n]
    [] m.m = "index" -> SetFn(b, "vreq", "index")
    [] m.m = "lam" -> Cors(Set(Set(b, "oreq", "lam"), "ores", "lam"))
    [] m.m = "uncors" -> IF "vres" \in b.fn THEN b ELSE [b EXCEPT !.vres = "-"]
    [] m.m = "unfn" -> IF "vreq" \in b.fn THEN [b EXCEPT !.vreq = "-", !.fn = @ \ {"vreq"}] ELSE b
    [] m.m = "key" -> [b EXCEPT !.key = m.s]
    [] m.m = "unkey" -> [b EXCEPT !.key = "-"]
    [] m.m = "all" -> [b EXCEPT !.methods = "all"]
    [] m.m = "ttl" -> [b EXCEPT !.ttl = m.n]
    [] m.m = "keys" -> [b EXCEPT !.keys = @ \o m.l]
    [] m.m = "headers" -> [b EXCEPT !.headers = @ \o m.l]
    [] OTHER -> [b EXCEPT !.timeout = m.n]
RECURSIVE Fold(_, _)
Fold(b, ms) == IF ms = <<>> THEN b ELSE Fold(Step(b, Head(ms)), Tail(ms))
Made(x) == [Fold(Maker(x), x.mods) EXCEPT !.bad = @]
Behaviours(d) == [i \in 1..Len(d.of) |-> Made(d.of[i])]
Defaults(d) == {i \in 1..Len(d.of) : d.of[i].path = "*"}
\* a distribution needs somewhere to write its log, behaviours, exactly one of them the default one, and the load balancers they lead to
Sound(d) == /\ d.log /\ Cardinality(Defaults(d)) = 1
            /\ \A i \in 1..Len(d.of) : ~Behaviours(d)[i].bad /\ (Behaviours(d)[i].type = "vpc" => d.of[i].host \in d.vpc)
Refused == \E i \in 1..Len(stack.dists) : ~Sound(stack.dists[i])

\* ---------------------------------------------------------------- a request
\* the first behaviour, in the order they were given, that fits the path; the default one takes the rest
Taker(d, path) == LET fit == {i \in 1..Len(d.of) : i \notin Defaults(d) /\ Fits(path, d.of[i].path)} IN
  IF fit = {} THEN CHOOSE i \in Defaults(d) : TRUE ELSE CHOOSE i \in fit : \A j \in fit : i <= j
Read == {"GET", "HEAD", "OPTIONS"}
HostOf(b) == CASE b.type = "s3" -> (IF Contains(b.host, ".") THEN b.host ELSE b.host \o ".s3.eu-west-1.amazonaws.com") [] b.type = "vpc" -> "internal-web-test-1221465418.eu-west-1.elb.amazonaws.com" [] OTHER -> b.host
PrefixOf(b) == IF b.type = "api" THEN "/prod" ELSE ""
Forwarded(b, q) == IF b.type # "s3" \/ b.keys = <<>> THEN q ELSE SelectSeq(q, LAMBDA p : p[1] \in Range(b.keys))
Ask(b, path, q) == [host |-> HostOf(b), path |-> PrefixOf(b) \o path, query |-> Forwarded(b, q), key |-> IF b.type = "s3" THEN "-" ELSE b.key, timeout |-> IF b.type = "s3" THEN 0 ELSE b.timeout,
                    proto |-> CASE b.type = "http" -> "http" [] b.type = "vpc" -> "vpc" [] b.type = "s3" -> "s3" [] OTHER -> "https",
                    header |-> IF b.type \in {"http", "https", "vpc"} THEN "viewer" ELSE HostOf(b)]
No == [host |-> "-", path |-> "-", query |-> <<>>, key |-> "-", timeout |-> 0, proto |-> "-", header |-> "-"]
Answer(status) == [status |-> status, to |-> "-", cors |-> "-", body |-> "-", control |-> "-", modified |-> "-", file |-> "-", keyed |-> FALSE, asked |-> No]

\* the history of the road stations
Vals(q, k) == [i \in 1..Len(SelectSeq(q, LAMBDA p : p[1] = k)) |-> SelectSeq(q, LAMBDA p : p[1] = k)[i][2]]
Val(q, k) == IF Vals(q, k) = <<>> THEN "" ELSE Vals(q, k)[1]
RECURSIVE Join(_, _)
Join(l, by) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o by \o Join(Tail(l), by)
Opt(k, v) == IF v = "" THEN <<>> ELSE <<<<k, v>>>>
Joined(q, k, by) == IF Vals(q, k) = <<>> THEN "" ELSE Join(Vals(q, k), by)
LamGood(q) == /\ Val(q, "api") # "" /\ Val(q, "tyyppi") # "" /\ (Val(q, "piste") # "" \/ Val(q, "pistejoukko") # "") /\ (Val(q, "pvm") # "" \/ Val(q, "viikko") # "")
              /\ (Joined(q, "ryhma", ",") = "" /\ Joined(q, "luokka", ",") # "" => Val(q, "tyyppi") = "h")
              /\ Len(Vals(q, "api")) = 1
Until(q) == IF Val(q, "loppu") = "" THEN "" ELSE "-" \o Val(q, "loppu")
LamQuery(q) == <<<<"tyyppi", Val(q, "tyyppi")>>>>
  \o (IF Val(q, "pvm") # "" THEN <<<<"pvm", Val(q, "pvm") \o Until(q)>>>> ELSE <<<<"viikko", Val(q, "viikko") \o Until(q)>>>>)
  \o (IF Val(q, "piste") # "" THEN <<<<"piste", Val(q, "piste")>>>> ELSE <<<<"pistejoukko", Val(q, "pistejoukko")>>>>)
  \o Opt("suunta", Joined(q, "suunta", "-")) \o Opt("sisallytakaistat", Val(q, "sisallytakaistat"))
  \o (IF Joined(q, "ryhma", ",") # "" THEN Opt("ryhma", Joined(q, "ryhma", ",")) ELSE Opt("ajoneuvoluokka", Joined(q, "luokka", ",")))
LamFile(q) == "/" \o Val(q, "api")
LamName(q) == Val(q, "api") \o "_" \o Val(q, "tyyppi") \o "_" \o (IF Val(q, "pvm") # "" THEN Val(q, "pvm") \o Until(q) ELSE Val(q, "viikko") \o Until(q)) \o ".csv"

\* what the origin is asked after the handler of origin requests; "answered" when that handler answers itself
OriginStep(b, r, path) ==
  IF b.oreq = "cam" /\ r.query # <<>> THEN [asked |-> [Ask(b, path, r.query) EXCEPT !.host = b.cam, !.path = path, !.header = "www." \o b.cam, !.proto = "http", !.key = "-", !.timeout = 5], answered |-> "-"]
  ELSE IF b.oreq = "lam" THEN
    IF Contains(path, "/api/tms/v1/history/raw/") THEN
      [asked |-> IF r.year > 21 THEN [Ask(b, LastPart(path), r.query) EXCEPT !.host = "ongoing.s3", !.header = "ongoing.s3"] ELSE Ask(b, LastPart(path), r.query), answered |-> "-"]
    ELSE IF (Contains(path, "/ui/tms/history") \/ Contains(path, "/api/tms/v1/history")) /\ r.query # <<>> THEN
      IF LamGood(r.query) THEN [asked |-> [host |-> "snow.flake", path |-> "/prod" \o LamFile(r.query), query |-> LamQuery(r.query), key |-> "snow-key", timeout |-> 20, proto |-> "https", header |-> "snow.flake"], answered |-> "-"]
      ELSE [asked |-> No, answered |-> "failed"]
    ELSE IF EndsWith(path, "/ui/tms/history") \/ Contains(path, "/ui/tms/history/index.") THEN [asked |-> No, answered |-> "moved"]
    ELSE IF Contains(path, "/ui/tms/history/") THEN [asked |-> Ask(b, IF EndsWith(path, "/ui/tms/history/") THEN "/index.html" ELSE LastPart(path), r.query), answered |-> "-"]
    ELSE [asked |-> Ask(b, path, r.query), answered |-> "-"]
  ELSE [asked |-> Ask(b, path, r.query), answered |-> "-"]
\* what the origin said, after the handler of origin responses
OriginAnswer(b, r, asked) ==
  LET a0 == [Answer(r.ans) EXCEPT !.body = "origin", !.asked = asked, !.control = CASE r.says = "max" -> "max-age=" \o ToString(r.max) [] OTHER -> r.says] IN
  IF b.ores = "cam" THEN (IF r.ans \in {403, 404} THEN [a0 EXCEPT !.status = 200, !.body = "placeholder", !.control = "no-cache"] ELSE IF r.method = "GET" THEN [a0 EXCEPT !.modified = r.modified] ELSE a0)
  ELSE IF b.ores = "lam" THEN [a0 EXCEPT !.file = IF asked.host = "snow.flake" THEN LamName(r.query) ELSE "-"]
  ELSE a0
\* answers of the origin with a status of 400 or more do not come to the handler of viewer responses
Finish(b, r, a) == [a EXCEPT !.cors = IF b.vres = "cors" /\ r.method = "GET" /\ a.status < 400 THEN "ours" ELSE "any"]
\* what tells cached answers apart
Part(b, r) == <<r.d, Taker(stack.dists[r.d], r.path), r.method, IF b.keys = <<>> THEN r.query ELSE SelectSeq(r.query, LAMBDA p : p[1] \in Range(b.keys)), IF "Authorization" \in Range(b.headers) THEN r.auth ELSE "-", r.gzip>>
Path(b, r) == CASE b.vreq = "index" /\ EndsWith(r.path, "/") -> r.path \o "index.html" [] b.vreq = "cut" -> Without(r.path, b.cut) [] OTHER -> r.path
Fresh(b, r) == {e \in cache : e.key = <<Path(b, r)>> \o Part(b, r)}
\* the origin may say how long its answer may be kept, which counts up to the behaviour's time
TimeOf(b, r) == CASE r.says = "max" -> IF r.max < b.ttl THEN r.max ELSE b.ttl [] r.says = "no-store" -> 0 [] OTHER -> b.ttl
Respond(r) ==
  LET d == stack.dists[r.d]
      b == Behaviours(d)[Taker(d, r.path)]
      end(a) == /\ out' = [kind |-> "answer", a |-> a] /\ UNCHANGED cache
  IN IF ~r.https THEN end([Answer(301) EXCEPT !.to = "https"])
     ELSE IF b.methods = "read" /\ r.method \notin Read THEN end(Answer(403))
     ELSE IF b.vreq = "redirect" THEN end([Answer(302) EXCEPT !.to = b.to])
     ELSE IF b.vreq = "ip" /\ r.ip \notin b.ips THEN end(Answer(403))
     ELSE IF b.vreq = "gzip" /\ r.method = "OPTIONS" THEN end([Answer(204) EXCEPT !.cors = "ours"])
     ELSE IF b.vreq = "gzip" /\ r.method = "GET" /\ ~r.gzip THEN end([Answer(406) EXCEPT !.body = "gzip needed"])
     ELSE IF r.method \in Read /\ Fresh(b, r) # {} THEN
       LET e == CHOOSE e \in Fresh(b, r) : TRUE IN end(Finish(b, r, [e.a EXCEPT !.asked = No]))
     ELSE LET s == OriginStep(b, r, Path(b, r))
              a == CASE s.answered = "failed" -> Answer(502)
                     [] s.answered = "moved" -> [Answer(301) EXCEPT !.to = "/ui/tms/history/", !.control = "max-age=300"]
                     [] OTHER -> OriginAnswer(b, r, s.asked)
          IN /\ out' = [kind |-> "answer", a |-> IF s.answered = "failed" THEN a ELSE Finish(b, r, a)]
             /\ cache' = IF MaxCache > 0 /\ r.method \in Read /\ s.answered = "-" /\ a.status = 200 /\ a.control # "no-cache" /\ TimeOf(b, r) > 0
                         THEN {e \in cache : e.key # <<Path(b, r)>> \o Part(b, r)} \cup {[key |-> <<Path(b, r)>> \o Part(b, r), left |-> TimeOf(b, r), a |-> a]} ELSE cache

Init == /\ stack \in Stacks /\ cache = {} /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Do(a) ==
  /\ act' = a /\ UNCHANGED stack
  /\ CASE a.op = "build" -> /\ out' = [kind |-> "built", refused |-> Refused] /\ UNCHANGED cache
       [] a.op = "tick" -> /\ ~Refused /\ cache # {} /\ out' = [kind |-> "none"]
                            /\ cache' = {[e EXCEPT !.left = @ - a.s] : e \in {e \in cache : e.left > a.s}}
       [] OTHER -> /\ ~Refused /\ Cardinality(cache) <= MaxCache /\ Respond(a.r)
Actions == {[op |-> "build"]} \cup {[op |-> "ask", r |-> r] : r \in Requests(stack)} \cup {[op |-> "tick", s |-> s] : s \in Ticks(stack)}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* nothing is kept that is not a success, and no two answers for what cannot be told apart
Kept == /\ \A e \in cache : e.a.status = 200 /\ e.a.control # "no-cache"
        /\ \A e, f \in cache : e.key = f.key => e = f
\* a request that did not reach its origin shows nothing of it
Shut == out.kind = "answer" /\ out.a.status \in {302, 403, 406, 204} /\ out.a.body # "origin" => out.a.asked = No
Invariants == Kept /\ Shut
Bound == Cardinality(cache) <= MaxCache + 1
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
