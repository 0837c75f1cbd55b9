----------------------------- MODULE Integration ------------------------------
(* The way of a request from the client through the API gateway to a lambda, a queue  *)
(* or a fixed answer, and of the answer back.  An integration is put together step by *)
(* step (what of the request the lambda is to get); then requests come in, the lambda *)
(* sees exactly the event that was asked for, and the client exactly what the lambda  *)
(* answered.  Values are tokens that stand for strings which are hard to carry        *)
(* (quotes, back slashes, attempts to break out of the event, ...).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, Adds, Requests, Builds, Answers, Queues, Posts, Statics, Gets, Proxies, Olds, Calls, MaxSteps, Spread
VARIABLES ph, decl, all, body, up, out, act
vars == <<ph, decl, all, body, up, out, act>>
View == <<ph, decl, all, body, up>>

Init == /\ ph = "build" /\ decl = <<>> /\ all = FALSE /\ body = FALSE /\ up = <<>> /\ out = "none" /\ act = [op |-> "init"]
Names(d) == {d[i].nm : i \in 1..Len(d)}
HasQuery(d) == \E i \in 1..Len(d) : d[i].ty = "query"
Steps == Len(decl) + (IF all THEN 1 ELSE 0) + (IF body THEN 1 ELSE 0)
Hidden(nm) == nm \in {"_hidden", "_p1"}          \* names that start with an underscore

\* ---------------------------------------------------------------- what the lambda is to get
Add(a) == /\ ph = "build" /\ Kind = "lambda" /\ Steps < MaxSteps /\ a.nm \notin Names(decl)
          /\ IF Hidden(a.nm) \/ (a.ty = "query" /\ all)
             THEN out' = [refused |-> TRUE] /\ UNCHANGED decl
             ELSE out' = [refused |-> FALSE] /\ decl' = Append(decl, [ty |-> a.ty, nm |-> a.nm])
          /\ UNCHANGED <<ph, all, body, up>>
PassAll == /\ ph = "build" /\ Kind = "lambda" /\ Steps < MaxSteps /\ ~all
           /\ IF HasQuery(decl) THEN out' = [refused |-> TRUE] /\ UNCHANGED all ELSE out' = [refused |-> FALSE] /\ all' = TRUE
           /\ UNCHANGED <<ph, decl, body, up>>
PassBody == /\ ph = "build" /\ Kind = "lambda" /\ Steps < MaxSteps /\ ~body /\ body' = TRUE /\ out' = [refused |-> FALSE] /\ UNCHANGED <<ph, decl, all, up>>
\* what the description of the API says there may be: the answers, what is in them, and their headers
Cors == "Access-Control-Allow-Origin"
Declared(b) == {[status |-> "200", type |-> b.media, headers |-> {Cors} \cup (IF b.deprecated THEN {"Deprecation"} ELSE {}) \cup (IF b.sunset # "-" THEN {"Sunset"} ELSE {})],
                [status |-> "400", type |-> "application/json", headers |-> {Cors}], [status |-> "500", type |-> "text/plain", headers |-> {Cors}],
                [status |-> "501", type |-> b.media, headers |-> {}]}
Build(b) == /\ ph = "build" /\ Kind = "lambda" /\ ph' = "up" /\ up' = <<b>> /\ out' = [built |-> TRUE, responses |-> Declared(b)] /\ UNCHANGED <<decl, all, body>>

Of(m, k) == IF k \in DOMAIN m THEN m[k] ELSE "empty"
InQuery(r, k) == SelectSeq(r.query, LAMBDA p : p[1] = k)
LastOf(s) == IF s = <<>> THEN "empty" ELSE s[Len(s)][2]
Value(r, d) == CASE d.ty = "path" -> [arr |-> FALSE, v |-> <<Of(r.path, d.nm)>>]
                 [] d.ty = "header" -> [arr |-> FALSE, v |-> <<Of(r.header, d.nm)>>]
                 [] d.ty = "context" -> [arr |-> FALSE, v |-> <<Of(r.context, d.nm)>>]
                 [] d.ty = "query" -> [arr |-> FALSE, v |-> <<LastOf(InQuery(r, d.nm))>>]
                 [] OTHER -> LET q == InQuery(r, d.nm) IN [arr |-> TRUE, v |-> [i \in 1..Len(q) |-> q[i][2]]]
DeclOf(k) == CHOOSE i \in 1..Len(decl) : decl[i].nm = k
Extra(r) == IF all THEN {r.query[i][1] : i \in 1..Len(r.query)} \ (Names(decl) \cup {"_hidden", "_p1"}) ELSE {}
\* every parameter declared, and nothing the client sends can stand in for one of another kind
Event(r) == [k \in Names(decl) \cup Extra(r) \cup (IF body THEN {"payload"} ELSE {}) |->
               IF k = "payload" /\ body THEN [arr |-> FALSE, v |-> <<"base64", r.body>>]
               ELSE IF k \in Names(decl) THEN Value(r, decl[DeclOf(k)]) ELSE [arr |-> FALSE, v |-> <<LastOf(InQuery(r, k))>>]]
NoTemplate == decl = <<>> /\ ~all /\ ~body
Client(b, x) == [status |-> x.status, type |-> IF x.status = 200 THEN b.media ELSE "text/plain", body |-> x.body, cors |-> "*",
                 modified |-> x.timestamp, etag |-> "of the answer", disposition |-> x.file,
                 deprecation |-> IF b.deprecated THEN "true" ELSE "-", sunset |-> IF b.deprecated THEN b.sunset ELSE "-"]
Request(r, x) == /\ ph = "up" /\ Kind = "lambda" /\ UNCHANGED <<ph, decl, all, body, up>>
                 /\ out' = [event |-> IF NoTemplate THEN [passed |-> "as it came"] ELSE Event(r), client |-> Client(up[1], x)]

\* ---------------------------------------------------------------- queue behind the API
QueueUp(q) == /\ ph = "build" /\ Kind = "queue" /\ ph' = "up" /\ up' = <<q>> /\ UNCHANGED <<decl, all, body>>
              /\ out' = [key |-> q.key, validated |-> TRUE, may |-> {"sqs:SendMessage on the queue", "logs on *"}]
Post(p) == /\ ph = "up" /\ Kind = "queue" /\ UNCHANGED <<ph, decl, all, body, up>>
           /\ out' = IF p.type # "application/json" THEN [status |-> 415, sent |-> "nothing", group |-> "-", text |-> "-"]
                     ELSE [status |-> IF p.queue = 200 THEN 200 ELSE 500, sent |-> p.body, group |-> IF up[1].fifo THEN "one group" ELSE "-",
                           text |-> IF p.queue = 200 THEN "Success" ELSE "Error"]

\* ---------------------------------------------------------------- fixed answers
StaticUp(s) == /\ ph = "build" /\ Kind = "static" /\ ph' = "up" /\ up' = <<s>> /\ UNCHANGED <<decl, all, body>> /\ out' = [methods |-> {"GET", "HEAD"}, key |-> s.key]
Get(g) == /\ ph = "up" /\ Kind = "static" /\ UNCHANGED <<ph, decl, all, body, up>>
          /\ out' = [status |-> 200, body |-> up[1].body, cors |-> IF up[1].cors THEN "*" ELSE "-", extra |-> up[1].header]

\* ---------------------------------------------------------------- answers of the older kind: by what the lambda fails with
Message == [bad |-> "Bad Request", notfound |-> "Not Found", error |-> "Error"]
OldUp(o) == /\ ph = "build" /\ Kind = "old" /\ ph' = "up" /\ up' = <<o>> /\ UNCHANGED <<decl, all, body>> /\ out' = [built |-> TRUE]
Call(c) == /\ ph = "up" /\ Kind = "old" /\ (up[1].kind = "default" \/ c.fails = "-") /\ UNCHANGED <<ph, decl, all, body, up>>
           /\ LET o == up[1] IN
              IF o.kind = "default"
              THEN out' = [status |-> CASE c.fails = "-" -> 200 [] c.fails = "bad" -> 400 [] c.fails = "notfound" -> 404 [] OTHER -> 500,
                           cors |-> IF o.cors THEN "*" ELSE "-", type |-> IF o.xml THEN "application/xml" ELSE "application/json",
                           body |-> IF c.fails = "-" THEN IF o.xml THEN <<"of the answer", c.body>> ELSE <<"the answer", c.body>> ELSE IF o.xml THEN <<"-", "-">> ELSE <<"message", Message[c.fails]>>]
              ELSE out' = [status |-> CASE o.kind = "ok" -> 200 [] o.kind = "bad" -> 400 [] OTHER -> 501, cors |-> "*", type |-> IF o.media = "-" THEN "text/plain" ELSE o.media, body |-> <<"decoded", c.body>>]

\* ---------------------------------------------------------------- parameters of proxied requests
\* single: the last value of each name; multi: all of them; either of them may be missing altogether
Parsed(p) == LET ks == (DOMAIN p.multi) \cup (DOMAIN p.single) IN
  [k \in ks |-> LET vs == IF k \in DOMAIN p.multi THEN p.multi[k] ELSE <<p.single[k]>> IN
     IF k \in p.lists \/ Len(vs) > 1 THEN [arr |-> TRUE, v |-> vs] ELSE [arr |-> FALSE, v |-> <<vs[1]>>]]
Proxy(p) == /\ Kind = "proxy" /\ out' = [params |-> Parsed(p)] /\ UNCHANGED <<ph, decl, all, body, up>>

Do(a) == /\ act' = a
         /\ CASE a.op = "add" -> Add(a) [] a.op = "passAll" -> PassAll [] a.op = "passBody" -> PassBody [] a.op = "build" -> Build(a.b)
              [] a.op = "request" -> Request(a.r, a.x) [] a.op = "queue" -> QueueUp(a.q) [] a.op = "post" -> Post(a.p)
              [] a.op = "static" -> StaticUp(a.s) [] a.op = "get" -> Get(a.g) [] a.op = "old" -> OldUp(a.o) [] a.op = "call" -> Call(a.c) [] OTHER -> Proxy(a.p)
Actions == CASE Kind = "lambda" -> {[op |-> "add", ty |-> d.ty, nm |-> d.nm] : d \in Adds} \cup {[op |-> "passAll"], [op |-> "passBody"]} \cup {[op |-> "build", b |-> b] : b \in Builds}
                                   \cup UNION {{[op |-> "request", r |-> Requests[i], x |-> Answers[((i + k) % Len(Answers)) + 1]] : k \in 0..Spread} : i \in 1..Len(Requests)}
             [] Kind = "queue" -> {[op |-> "queue", q |-> q] : q \in Queues} \cup {[op |-> "post", p |-> p] : p \in Posts}
             [] Kind = "static" -> {[op |-> "static", s |-> s] : s \in Statics} \cup {[op |-> "get", g |-> g] : g \in Gets}
             [] Kind = "old" -> {[op |-> "old", o |-> o] : o \in Olds} \cup {[op |-> "call", c |-> c] : c \in Calls}
             [] OTHER -> {[op |-> "proxy", p |-> p] : p \in Proxies}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* query parameters cannot take the place of what is declared otherwise, and hidden names never get through
Sound == /\ all => ~HasQuery(decl)
         /\ \A i, j \in 1..Len(decl) : i # j => decl[i].nm # decl[j].nm
         /\ \A i \in 1..Len(Requests) : LET e == Event(Requests[i]) IN
              /\ DOMAIN e \cap {"_hidden", "_p1"} = {}
              /\ ("p1" \in Names(decl) /\ decl[DeclOf("p1")].ty = "path") => e["p1"].v = <<Of(Requests[i].path, "p1")>>
              /\ \A k \in DOMAIN e : e[k].arr <=> (k \in Names(decl) /\ decl[DeclOf(k)].ty = "multi" /\ ~(k = "payload" /\ body))
Invariants == Kind # "lambda" \/ Sound
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
