------------------------------ MODULE RoadWorks ------------------------------
(* Maintenance of the state roads: what work machines were observed to do is sent over an interface, queued, and kept; what    *)
(* could not be worked through is put aside as a file; and of the trackings made of it, those of the last 26 hours stay.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Posts, Takes, Letters, Cleans, Waits, Starts, Steps
VARIABLES now, queue, kept, tracks, filed, filedAt, n, out, act
vars == <<now, queue, kept, tracks, filed, filedAt, n, out, act>>
View == <<now, queue, kept, tracks, filed, filedAt, n>>
Range(s) == {s[i] : i \in 1..Len(s)}
Day == 26 * 60
Init == /\ tracks \in Starts
        /\ now = 0 /\ queue = <<>> /\ kept = <<>> /\ filed = <<>> /\ filedAt = -1 /\ n = 0 /\ out = [kind |-> "-"] /\ act = [op |-> "init"]

\* ---- sent: what can be read is queued as it came, or the sender is told that it was not
Post(p) ==
  LET ok == p.kind = "msg" /\ ~p.fault
  IN /\ queue' = IF ok THEN Append(queue, p.msg) ELSE queue
     /\ out' = [kind |-> "posted", ok |-> ok, queued |-> Len(queue')]
     /\ UNCHANGED <<now, kept, tracks, filed, filedAt>>

\* ---- kept: all the observations of a message, or none of them; what is kept already stays as it is
Sender(m) == IF m.sender = "-" THEN "UNKNOWN" ELSE m.sender
Fails(m, t) == m.kind # "obs" \/ t.fault = "connect" \/ \E o \in Range(m.obs) : o.v = "bad" \/ (t.fault = "save" /\ o.v = "hit")
RECURSIVE Add(_, _, _)
Add(k, m, i) == IF i > Len(m.obs) THEN k
                ELSE IF \E e \in Range(k) : e.o = m.obs[i] THEN Add(k, m, i + 1)
                ELSE Add(Append(k, [o |-> m.obs[i], sender |-> Sender(m), sent |-> m.sent]), m, i + 1)
RECURSIVE All(_, _, _)
All(k, ms, t) == IF ms = <<>> THEN k ELSE All(IF Fails(Head(ms), t) THEN k ELSE Add(k, Head(ms), 1), Tail(ms), t)
Take(t) ==
  LET c == IF t.n < Len(queue) THEN t.n ELSE Len(queue)
      ms == SubSeq(queue, 1, c)
      \* nothing is lost of what could not even be fetched
      whole == c = 0 \/ t.fault = "secret" \/ (t.fault = "store" /\ \E m \in Range(ms) : m.big)
  IN /\ IF whole THEN UNCHANGED <<queue, kept>>
        ELSE queue' = SubSeq(queue, c + 1, Len(queue)) /\ kept' = All(kept, ms, t)
     /\ out' = [kind |-> "taken", failed |-> whole, each |-> IF whole THEN <<>> ELSE [i \in 1..c |-> ~Fails(ms[i], t)], kept |-> kept']
     /\ UNCHANGED <<now, tracks, filed, filedAt>>

\* ---- put aside: each as it was
Letter(l) ==
  /\ filed' = filed \o l /\ filedAt' = now /\ out' = [kind |-> "filed", filed |-> filed']
  /\ UNCHANGED <<now, queue, kept, tracks>>

\* ---- trackings: the recent ones stay, with those they go on from, and the newest of each domain
Recent(t) == t.end >= now - Day
Stays(t) == Recent(t) \/ (\E r \in tracks : Recent(r) /\ r.prev = t.id) \/ (\A o \in tracks : o.dom = t.dom => o.created <= t.created)
Due == \E t \in tracks : ~Recent(t)
\* whether one looks for what to delete when the oldest is almost a day old does not matter
Almost == ~Due /\ \E t \in tracks : t.end < now - Day + 60
Clean(f) ==
  LET fails == f \in {"connect", "secret", "oldest"} \/ (f \in {"clear", "delete"} /\ Due)
  IN /\ tracks' = IF fails THEN tracks ELSE {IF Recent(t) THEN t ELSE [t EXCEPT !.prev = 0] : t \in {x \in tracks : Stays(x)}}
     /\ out' = [kind |-> "cleaned", failed |-> fails, tracks |-> tracks']
     /\ UNCHANGED <<now, queue, kept, filed, filedAt>>
Wait(d) == now' = now + d /\ out' = [kind |-> "waited"] /\ UNCHANGED <<queue, kept, tracks, filed, filedAt>>

Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "post" -> Post(a.p) [] a.op = "take" -> Take(a.t) [] a.op = "letter" -> Letter(a.l) [] a.op = "clean" -> Clean(a.f) [] OTHER -> Wait(a.d)
Actions == {[op |-> "post", p |-> p] : p \in Posts} \cup {[op |-> "take", t |-> t] : t \in Takes}
           \cup (IF filedAt = now THEN {} ELSE {[op |-> "letter", l |-> l] : l \in Letters})
           \cup {[op |-> "clean", f |-> f] : f \in IF Almost THEN Cleans \ {"clear", "delete"} ELSE Cleans} \cup {[op |-> "wait", d |-> d] : d \in Waits}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
Once == \A i, j \in 1..Len(kept) : kept[i].o = kept[j].o => i = j
Good == \A e \in Range(kept) : e.o.v # "bad"
Joined == \A t \in tracks : t.prev # 0 => \E p \in tracks : p.id = t.prev
Safe == Once /\ Good /\ Joined
\* what is kept stays as it was, and so do the recent trackings; of no domain everything goes
Stay == [][SubSeq(kept', 1, Len(kept)) = kept /\ SubSeq(filed', 1, Len(filed)) = filed]_vars
Young == [][\A t \in tracks : t.end >= now - Day => t \in tracks']_vars
Newest == [][\A t \in tracks : \E o \in tracks' : o.dom = t.dom /\ o.created >= t.created]_vars
\* cleaning twice changes nothing more
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
