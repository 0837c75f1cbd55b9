------------------------------- MODULE Visits -------------------------------
(* Port visits: what the source tells of them, day by day, what is kept of it,  *)
(* and what the public is shown that asks. Times are hours from a midnight.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts,     \* what may be kept at first
          Tells,      \* what the source may come to tell
          Faults,     \* what may happen to an update
          Asks,       \* what the public may ask
          Waits, Steps
VARIABLES now, world, kept, stamped, n, out, act
vars == <<now, world, kept, stamped, n, out, act>>
View == <<now, world, kept, stamped, n>>
No == 99999
Never == 0 - 99999
Floor(x) == IF x >= 0 THEN x \div 24 ELSE 0 - ((23 - x) \div 24)
Today == Floor(now)
Vessel(id) == CASE id = "V1" -> [name |-> "ALPHA", imo |-> "9000001"] [] id = "V2" -> [name |-> "Beta", imo |-> "9000002"] [] id = "V3" -> [name |-> "ALPHA", imo |-> "9000001"]
                [] id = "V4" -> [name |-> "Gamma Ray", imo |-> "9000004"] [] OTHER -> [name |-> "DELTA", imo |-> "9000005"]

\* ------------------------------------------------------------ what is taken over
Of(s, id) == CHOOSE v \in s : v.id = id
Has(s, id) == \E v \in s : v.id = id
Same(v, w) == [v EXCEPT !.upd = 0] = [w EXCEPT !.upd = 0]
\* a visit told anew in the same words stays as it was
Take(k, v) == IF Has(k, v.id) THEN IF Same(Of(k, v.id), v) THEN k ELSE (k \ {Of(k, v.id)}) \cup {v} ELSE k \cup {v}
RECURSIVE TakeAll(_, _)
TakeAll(k, vs) == IF vs = {} THEN k ELSE LET v == CHOOSE v \in vs : TRUE IN TakeAll(Take(k, v), vs \ {v})
Day(v) == Floor(v.eta)
Asked == {v \in world : Today - 1 <= Day(v) /\ Day(v) <= Today + 99}
\* an update goes from day to day, and ends with the first that fails
Until(f) == CASE f.kind = "none" -> Today + 100
              [] f.kind = "source" -> Today + f.day
              [] f.kind = "save" -> IF Has(Asked, "V2") THEN Day(Of(Asked, "V2")) ELSE Today + 100
              [] f.kind = "stamp" -> Today + 100
              [] OTHER -> Today - 1
Whole(f) == f.kind = "none" \/ (f.kind = "save" /\ ~Has(Asked, "V2"))
Update(f) == /\ kept' = TakeAll(kept, {v \in Asked : Day(v) < Until(f)})
             /\ stamped' = IF Whole(f) THEN now ELSE stamped
             /\ UNCHANGED <<now, world>> /\ out' = [kind |-> "updated", kept |-> kept', stamped |-> stamped']
Tell(t) == LET v == [id |-> t.id, port |-> t.port, eta |-> t.eta, etd |-> t.etd, ata |-> t.ata, atd |-> t.atd, status |-> t.status, upd |-> now]
           IN world' = {w \in world : w.id # t.id} \cup {v} /\ UNCHANGED <<now, kept, stamped>> /\ out' = [kind |-> "told"]
Wait(h) == now' = now + h /\ UNCHANGED <<world, kept, stamped>> /\ out' = [kind |-> "waited"]

\* ------------------------------------------------------------ what is shown
In(t, q) == t # No /\ (q.from = No \/ t >= q.from) /\ (q.to = No \/ t < q.to)
Recent(v) == now - 90 * 24 <= v.eta /\ v.eta <= now + 90 * 24
Named(name, part) == CASE part \in {"alpha", "LPH", "ALPHA"} -> name = "ALPHA" [] part = "ta" -> name \in {"Beta", "DELTA"} [] part = "a r" -> name = "Gamma Ray" [] OTHER -> FALSE
Value(s) == CASE s \in {"arrived", "ARRIVED"} -> "Arrived" [] s = "expected-to-arrive" -> "Expected to Arrive" [] s = "departed" -> "Departed" [] OTHER -> "Cancelled"
Port(p) == IF p = "fihel" THEN "FIHEL" ELSE p
Fits(v, q) == /\ Recent(v)
              /\ (q.from = No /\ q.to = No) \/ In(v.eta, q) \/ In(v.etd, q) \/ In(v.ata, q) \/ In(v.atd, q)
              /\ (q.port = "-" \/ v.port = Port(q.port)) /\ (q.name = "-" \/ Named(Vessel(v.id).name, q.name))
              /\ (q.imo = "-" \/ Vessel(v.id).imo = q.imo) /\ (q.status = "-" \/ v.status = Value(q.status))
Rank(s) == CASE s \in {"ALPHA", "FIHEL", "Arrived"} -> 1 [] s \in {"Beta", "FIKTK", "Cancelled"} -> 2 [] s \in {"DELTA", "FIRAU", "Departed"} -> 3 [] OTHER -> 4
Key(v, f) == CASE f = "eta" -> v.eta [] f = "etd" -> v.etd [] f = "ata" -> v.ata [] f = "atd" -> v.atd [] f = "vesselName" -> Rank(Vessel(v.id).name)
               [] f = "portOfCall" -> Rank(v.port) [] f = "status" -> Rank(v.status) [] OTHER -> IF v.ata # No THEN v.ata ELSE v.eta
Told(v) == [id |-> v.id, name |-> Vessel(v.id).name, imo |-> Vessel(v.id).imo, port |-> v.port, eta |-> v.eta, etd |-> v.etd, ata |-> v.ata, atd |-> v.atd, status |-> v.status, upd |-> v.upd]
\* in groups of what has the same rank; what lacks the time comes last either way
Less(x, y, d) == IF d = "desc" THEN x # No /\ (y = No \/ x > y) ELSE x < y
RECURSIVE Groups(_, _)
Groups(vs, q) == IF vs = {} THEN <<>>
                 ELSE LET k == CHOOSE k \in {Key(v, q.field) : v \in vs} : \A v \in vs : ~Less(Key(v, q.field), k, q.dir)
                          g == {v \in vs : Key(v, q.field) = k}
                      IN <<{Told(v) : v \in g}>> \o Groups(vs \ g, q)
Ask(a) == /\ UNCHANGED <<now, world, kept, stamped>>
          /\ out' = CASE a.fault # "-" -> [kind |-> "answer", status |-> 500]
                      [] a.what = "one" -> IF Has(kept, a.id) THEN [kind |-> "answer", status |-> 200, one |-> Told(Of(kept, a.id))] ELSE [kind |-> "answer", status |-> 404]
                      [] a.what = "bad" -> [kind |-> "answer", status |-> 400]
                      [] OTHER -> [kind |-> "answer", status |-> 200, groups |-> Groups({v \in kept : Fits(v, a.q)}, a.q)]
Init == now = 12 /\ world = {} /\ kept \in Starts /\ stamped = Never /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "tell" -> Tell(a.t) [] a.op = "wait" -> Wait(a.hours) [] a.op = "update" -> Update(a.f) [] OTHER -> Ask(a.a)
\* of many versions each is told once only
Actions == {[op |-> "tell", t |-> t] : t \in IF Cardinality(Tells) > 20 /\ world # {} THEN {} ELSE Tells} \cup {[op |-> "wait", hours |-> h] : h \in Waits} \cup {[op |-> "update", f |-> f] : f \in Faults} \cup {[op |-> "ask", a |-> a] : a \in Asks}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what holds
One == \A v, w \in kept : v.id = w.id => v = w
\* after an update that goes well, what was asked for is kept as the source tells it
Current == (act.op = "update" /\ act.f.kind = "none") => \A v \in Asked : Has(kept, v.id) /\ Same(Of(kept, v.id), v)
Safe == One /\ Current
\* nothing is dropped, and only updates change anything
Lasting == [][(\A v \in kept : Has(kept', v.id)) /\ (kept' # kept => act'.op = "update")]_vars
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
