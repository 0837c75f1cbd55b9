------------------------------ MODULE Database ------------------------------
(* Database sessions of lambdas, seen at the server: each use of the database opens  *)
(* a connection to the endpoint it is meant for, discards what a pooled connection   *)
(* may carry, does its work - in a transaction if asked for - and gives the          *)
(* connection up, whatever happened.  The server may refuse, report errors or drop   *)
(* the connection at every statement.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sessions, Kinds, Envs, Nulls, Work, MaxWork, Replies, Throws

VARIABLES st, committed, act
vars == <<st, committed, act>>
View == <<st, committed>>

Fresh == [pc |-> "new", kind |-> "-", nulls |-> FALSE, env |-> "-", stmt |-> "-", sent |-> <<>>, target |-> "-", staged |-> <<>>, n |-> 0,
          last |-> "-", dead |-> FALSE, fail |-> "-", out |-> "pending", conns |-> 0, logged |-> 0]
Init == st = [s \in Sessions |-> Fresh] /\ committed = {} /\ act = [op |-> "init"]

Up(s, r) == st' = [st EXCEPT ![s] = r]
Send(r, stmt) == [r EXCEPT !.pc = "stmt", !.stmt = stmt, !.sent = Append(@, stmt)]
Done(r, out) == [r EXCEPT !.pc = "done", !.out = out, !.conns = 0, !.stmt = "-", !.logged = IF out = "value" THEN 0 ELSE 1]
Target(kind) == IF kind = "ro" THEN "ro" ELSE "rw"

\* an endpoint that is not configured is found out before anything is opened
Open(s, kind, nulls, env) ==
  /\ st[s].pc = "new" /\ UNCHANGED committed
  /\ LET r == [st[s] EXCEPT !.kind = kind, !.nulls = nulls, !.env = env] IN
     IF (env = "norw" /\ kind # "ro") \/ (env = "noro" /\ kind = "ro")
     THEN Up(s, [r EXCEPT !.pc = "done", !.out = "not configured"])
     ELSE Up(s, [r EXCEPT !.pc = "connecting", !.target = Target(kind), !.conns = 1])
Accept(s, ok) ==
  /\ st[s].pc = "connecting" /\ UNCHANGED committed
  /\ Up(s, IF ok THEN Send(st[s], "discard") ELSE Done(st[s], "connection"))
Answer(s, r) ==
  /\ st[s].pc = "stmt"
  /\ LET x == st[s]
         wid == s \o "." \o ToString(x.n)
         lost == [x EXCEPT !.conns = 0, !.dead = TRUE]
         inside(y, last) == [y EXCEPT !.pc = "inside", !.stmt = "-", !.last = last]
     IN CASE x.stmt \in {"discard", "begin"} ->
               /\ UNCHANGED committed
               /\ Up(s, IF r = "ok" THEN (IF x.stmt = "discard" /\ x.kind = "tx" THEN Send(x, "begin") ELSE inside(x, "-"))
                        ELSE Done(x, IF r = "error" THEN "sql error" ELSE "connection"))
          [] x.stmt \in {"write", "select"} ->
               /\ committed' = IF r = "ok" /\ x.stmt = "write" /\ x.kind # "tx" THEN committed \cup {wid} ELSE committed
               /\ Up(s, IF r = "ok" THEN inside([x EXCEPT !.staged = IF x.stmt = "write" /\ x.kind = "tx" THEN Append(@, wid) ELSE @],
                                                IF x.stmt = "write" THEN "written" ELSE IF x.nulls THEN "undefined 42 1.5 2.5|x 9007199254740991 -0.25 undefined" ELSE "null 42 1.5 2.5|x 9007199254740991 -0.25 null")
                        ELSE IF r = "error" THEN inside(x, "sql error") ELSE inside(lost, "connection"))
          [] x.stmt = "commit" ->
               /\ committed' = IF r = "ok" THEN committed \cup {x.staged[i] : i \in 1..Len(x.staged)} ELSE committed
               /\ Up(s, Done(x, IF r = "ok" THEN "value" ELSE IF r = "error" THEN "sql error" ELSE "connection"))
          [] x.stmt = "rollback" ->
               /\ UNCHANGED committed
               /\ Up(s, Done(x, IF r = "ok" THEN x.fail ELSE IF r = "error" THEN "sql error" ELSE "connection"))
Usable(x) == x.pc = "inside" /\ ~x.dead /\ ~(x.kind = "tx" /\ x.last = "sql error")
Query(s, q) == /\ Usable(st[s]) /\ st[s].n < MaxWork /\ UNCHANGED committed
               /\ Up(s, Send([st[s] EXCEPT !.n = @ + 1], q))
Finish(s) == /\ Usable(st[s]) /\ UNCHANGED committed
             /\ Up(s, IF st[s].kind = "tx" THEN Send(st[s], "commit") ELSE Done(st[s], "value"))
\* the work gives up: with an error of its own or the one it got from the server
Throw(s, e) ==
  /\ st[s].pc = "inside" /\ (e = "rethrow" => st[s].last \in {"sql error", "connection"}) /\ UNCHANGED committed
  /\ LET why == IF e = "rethrow" THEN st[s].last ELSE "own error" IN
     Up(s, IF st[s].kind # "tx" THEN Done(st[s], why)
           ELSE IF st[s].dead THEN Done(st[s], "connection")
           ELSE Send([st[s] EXCEPT !.fail = why], "rollback"))

Actions == [op : {"open"}, s : Sessions, kind : Kinds, nulls : Nulls, env : Envs] \cup [op : {"accept"}, s : Sessions, ok : BOOLEAN]
     \cup [op : {"answer"}, s : Sessions, r : Replies] \cup [op : {"query"}, s : Sessions, q : Work]
     \cup [op : {"finish"}, s : Sessions] \cup [op : {"throw"}, s : Sessions, e : Throws]
Do(a) == /\ act' = a
         /\ CASE a.op = "open" -> Open(a.s, a.kind, a.nulls, a.env)
              [] a.op = "accept" -> Accept(a.s, a.ok)
              [] a.op = "answer" -> Answer(a.s, a.r)
              [] a.op = "query" -> Query(a.s, a.q)
              [] a.op = "finish" -> Finish(a.s)
              [] a.op = "throw" -> Throw(a.s, a.e)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ---- what must hold
DiscardFirst == \A s \in Sessions : st[s].sent # <<>> => st[s].sent[1] = "discard"
ReadOnlyStays == \A s \in Sessions : (st[s].kind = "ro" => st[s].target \in {"-", "ro"}) /\ (st[s].kind \in {"db", "tx"} => st[s].target \in {"-", "rw"})
GivenUp == \A s \in Sessions : st[s].pc = "done" => st[s].conns = 0
Mine(s) == {w \in committed : \E i \in 1..MaxWork : w = s \o "." \o ToString(i)}
AllOrNothing == \A s \in Sessions : st[s].kind = "tx" =>
   Mine(s) = (IF st[s].out = "value" THEN {st[s].staged[i] : i \in 1..Len(st[s].staged)} ELSE {})
FailureTold == \A s \in Sessions : st[s].pc = "done" /\ st[s].out \notin {"value", "not configured"} => st[s].logged = 1
Invariants == DiscardFirst /\ ReadOnlyStays /\ GivenUp /\ AllOrNothing /\ FailureTold

Obs1(x) == [out |-> x.out, sent |-> x.sent, target |-> x.target, last |-> IF x.pc = "inside" THEN x.last ELSE "-", conns |-> x.conns, logged |-> x.logged]
Obs == [s |-> [s \in Sessions |-> Obs1(st[s])], committed |-> committed]
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
