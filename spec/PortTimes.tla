------------------------------ MODULE PortTimes ------------------------------
(* The times of ships in ports (marine/portactivity): messages arrive in batches from   *)
(* a queue, are judged, joined to the port call and the ship they belong to and kept;    *)
(* people ask for them by port, by ship or by source.                                    *)
(* Times are minutes; 0 is where the clock starts. 0 and "" stand for what is absent.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Inits, Batches, Queries, Ticks, Purges, Steps
\* w: the world around: [calls, vessels, seen] (port calls, the register of ships, where ships were last seen)
VARIABLES w, rows, pilotages, now, n, out, act
vars == <<w, rows, pilotages, now, n, out, act>>
View == <<w, rows, pilotages, now, n>>

Types == {"ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"}
Awake == "Awake.AI"
Pred == "Awake.AI Pred"
Portnet == "Portnet"
Vts == "SCHEDULES_CALCULATED"
Control == "SCHEDULES_VTS_CONTROLLED"
Pilot == "Pilotweb"
Hour == 60
Day == 24 * 60
Big(S) == CHOOSE x \in S : \A y \in S : x >= y
Small(S) == CHOOSE x \in S : \A y \in S : x <= y

\* ---------------------------------------------------------------- judging a message
\* m: [flaw, type, et, rt, source, mmsi, imo, port, area, from, pc, sid, conf, lo, hi, fault]; lo and hi are tenths of seconds' tens
Anchored == {1, 5, 6}   \* at anchor, moored, aground
LastSeen(m) == {v \in w.seen : v.mmsi = m.mmsi /\ v.at > now - Hour}
NotMoving(m) == IF m.mmsi = 0 \/ LastSeen(m) = {} THEN FALSE
                ELSE LET v == CHOOSE v \in LastSeen(m) : \A u \in LastSeen(m) : v.at >= u.at IN v.nav \in Anchored \/ v.sog < 20
Accepted(m) ==
  /\ m.flaw = "none"
  /\ m.mmsi # 0 \/ m.imo # 0
  /\ m.type \in Types
  /\ Len(m.port) \in 1..5 /\ Len(m.from) <= 5 /\ Len(m.area) <= 6
  /\ ~(m.source = Pred /\ m.type = "ETD")
  /\ ~(m.source = Vts /\ m.type \in {"ETA", "ETB"} /\ NotMoving(m))
\* the interval of confidence is kept when it is one: two numbers around the time
Kept(m) == m.conf = "numbers" /\ m.lo <= m.hi /\ m.lo < 0 /\ m.hi > 0
Down(x) == x \div 10
Up(x) == -((-x) \div 10)

\* ---------------------------------------------------------------- the ship and the port call of a message
VesselMmsi(imo) == LET S == {v \in w.vessels : v.imo = imo} IN IF S = {} THEN 0 ELSE (CHOOSE v \in S : \A u \in S : v.at >= u.at).mmsi
VesselImo(mmsi) == LET S == {v \in w.vessels : v.mmsi = mmsi} IN IF S = {} THEN 0 ELSE (CHOOSE v \in S : \A u \in S : v.at >= u.at).imo
KnownMmsi(imo) == LET S == {v \in w.vessels : v.imo = imo /\ v.mmsi > 0} C == {c \in w.calls : c.imo = imo /\ c.mmsi > 0} IN
  IF S # {} THEN (CHOOSE v \in S : \A u \in S : v.at >= u.at).mmsi ELSE IF C # {} THEN (CHOOSE c \in C : \A u \in C : c.at >= u.at).mmsi ELSE 0
CallMmsi(imo) == LET S == {c \in w.calls : c.imo = imo} IN IF S = {} THEN 0 ELSE (CHOOSE c \in S : \A u \in S : c.at >= u.at).mmsi
CallImo(mmsi) == LET S == {c \in w.calls : c.mmsi = mmsi} IN IF S = {} THEN 0 ELSE (CHOOSE c \in S : \A u \in S : c.at >= u.at).imo
First(a, b) == IF a # 0 THEN a ELSE b
OwnMmsi(m) == First(m.mmsi, First(VesselMmsi(m.imo), CallMmsi(m.imo)))
OwnImo(m) == First(m.imo, First(VesselImo(m.mmsi), CallImo(m.mmsi)))
\* berthing as reckoned by VTS and Awake.AI is looked up by the arrival of the call
CallType(m) == IF m.type = "ETB" /\ m.source \in {Vts, Awake} THEN "ETA" ELSE m.type
TimeOf(c, t) == CASE t = "ETA" -> c.eta [] t = "ETD" -> c.etd [] t = "ATA" -> c.ata [] t = "ATD" -> c.atd [] OTHER -> {}
Fits(c, m) == /\ (c.mmsi = OwnMmsi(m) /\ c.mmsi # 0) \/ (c.imo = OwnImo(m) /\ c.imo # 0)
              /\ c.port = m.port
              /\ \E t \in TimeOf(c, CallType(m)) : IF CallType(m) \in {"ETA", "ETD"} THEN t >= now ELSE t <= now
Abs(x) == IF x < 0 THEN -x ELSE x
Far(c, m) == LET T == TimeOf(c, CallType(m)) IN Abs((CHOOSE t \in T : TRUE) - m.et)
CallOf(m) == LET S == {c \in w.calls : Fits(c, m)} IN
  IF m.pc # 0 THEN m.pc ELSE IF S = {} THEN 0 ELSE (CHOOSE c \in S : \A d \in S : Far(c, m) <= Far(d, m)).id
ShipImo(m) == First(m.imo, First(VesselImo(m.mmsi), CallImo(m.mmsi)))
ShipMmsi(m) == First(IF m.mmsi > 0 THEN m.mmsi ELSE 0, IF m.imo = 0 THEN 0 ELSE KnownMmsi(m.imo))
RowOf(m) == [type |-> m.type, et |-> m.et, rt |-> m.rt, source |-> m.source, mmsi |-> ShipMmsi(m), imo |-> ShipImo(m), port |-> m.port,
             area |-> m.area, from |-> m.from, pc |-> CallOf(m), sid |-> m.sid, lo |-> IF Kept(m) THEN Down(m.lo) ELSE 0, hi |-> IF Kept(m) THEN Up(m.hi) ELSE 0]
Same(r, s) == r.imo = s.imo /\ r.source = s.source /\ r.port = s.port /\ r.type = s.type /\ r.et = s.et /\ r.rt = s.rt /\ r.pc = s.pc /\ r.pc # 0
\* what becomes of one message: [rows, said]; what it moves away when Portnet moves a call to another port
Moved(m, R) == IF m.source = Portnet /\ CallOf(m) # 0 THEN {r \in R : r.source = Portnet /\ r.pc = CallOf(m) /\ r.port # m.port} ELSE {}
One(m, R) ==
  IF m.flaw = "not json" THEN [rows |-> R, said |-> <<"failed">>]
  ELSE IF ~Accepted(m) THEN [rows |-> R, said |-> <<"left">>]
  ELSE IF CallOf(m) = 0 /\ m.source # Pred THEN [rows |-> R, said |-> <<"left">>]
  ELSE IF ShipImo(m) = 0 THEN [rows |-> R, said |-> <<"left">>]
  ELSE IF m.fault THEN [rows |-> R, said |-> <<"failed">>]    \* the database refuses: nothing of the message stays, and the others go on
  ELSE LET left == R \ Moved(m, R) IN
       IF \E r \in left : Same(r, RowOf(m)) THEN [rows |-> left, said |-> <<"left">>]
       ELSE [rows |-> left \cup {RowOf(m)}, said |-> <<"saved", RowOf(m).imo, m.port, Moved(m, R) # {}>>]
RECURSIVE All(_, _, _)
All(b, R, said) == IF b = <<>> THEN [rows |-> R, said |-> said] ELSE LET x == One(Head(b), R) IN All(Tail(b), x.rows, Append(said, x.said))

\* ---------------------------------------------------------------- what is told
\* the newest word of each source on each kind of time of a ship in a port; by port call where both know theirs
Rivals(r) == {q \in rows : q.type = r.type /\ q.port = r.port /\ q.imo = r.imo /\ q.source = r.source /\ (IF q.pc # 0 /\ r.pc # 0 THEN q.pc = r.pc ELSE TRUE)}
Newest(r) == \A q \in Rivals(r) : q.rt <= r.rt
Told(r) == Newest(r) /\ r.et > now - 12 * Hour /\ (r.source = Portnet => r.et < now + 14 * Day)
About(q, r) == CASE q.by = "port"   -> r.port = q.v \/ (r.from = q.v /\ r.source = Pilot)
                 [] q.by = "mmsi"   -> r.mmsi = q.id
                 [] q.by = "imo"    -> r.imo = q.id
                 [] q.by = "source" -> r.source = q.v
\* estimates of several sources are brought together
Doubled(S) == {r \in S : r.pc = 0 /\ r.source = Pred /\ \E u \in S : u.source = Pred /\ u.imo = r.imo /\ u.port = r.port /\ u.type = r.type /\ u.et = r.et /\ u.pc # 0}
Group(S, r) == {u \in S : u.pc = r.pc /\ u.type = r.type}
Bad(G) == {v \in G : v.source = Vts /\ (now - v.rt >= Hour \/ \E a \in G : a.source = Awake /\ v.et - a.et >= Hour)}
Merge1(G) ==
  LET rest == G \ Bad(G)
      a == {u \in rest : u.source \in {Awake, Vts}}
      better == IF a # {} THEN {u \in rest : u.source # Pred} ELSE rest
  IN IF Cardinality(a) < 2 THEN better
     ELSE LET v == CHOOSE u \in a : u.source = Vts
              k == CHOOSE u \in a : u.source = Awake
          IN (better \ a) \cup {[v EXCEPT !.et = (v.et + k.et) \div 2]}
Merged(S) == LET T == S \ Doubled(S) IN UNION {Merge1(Group(T, r)) : r \in T}
\* merging is defined for groups with one word of VTS and one of Awake.AI at most
Clear(S) == \A r \in S : \A s \in {Vts, Awake} : Cardinality({u \in Group(S, r) : u.source = s}) <= 1
Shown(s) == CASE s = Portnet -> "PNET" [] s \in {Awake, Vts} -> "VTS A" [] s = Control -> "VTS O" [] s = Pred -> "PRED" [] OTHER -> s
Answer(q) == LET S == {r \in rows : Told(r) /\ About(q, r)} IN {[r EXCEPT !.source = Shown(r.source)] : r \in Merged(S)}

\* the list of ships shown at a port (h hours ahead): what came about lately and what is to come
InList(r, port, h) ==
  /\ Newest(r)
  /\ r.et > now - (IF r.type \in {"ATA", "ATD"} THEN 6 * Hour ELSE Hour) /\ r.et < now + h * Hour
  /\ r.type = "ETA" => ~\E q \in rows : q.type = "ATA" /\ q.pc = r.pc /\ q.pc # 0
  /\ r.port = port \/ (r.from = port /\ r.source = Pilot)
NameOf(imo) == LET S == {v \in w.vessels : v.imo = imo} C == {c \in w.calls : c.imo = imo} IN
  IF S # {} THEN (CHOOSE v \in S : \A u \in S : v.at >= u.at).name ELSE IF C # {} THEN (CHOOSE c \in C : TRUE).upper ELSE "Unknown"
ShipList(port, h) == {[type |-> r.type, et |-> r.et, rt |-> r.rt, source |-> Shown(r.source), imo |-> r.imo, pc |-> r.pc, name |-> NameOf(r.imo)]
                      : r \in Merged({r \in rows : InList(r, port, h)})}

\* the page with the list is for those who know the word, for known forms of ports, and reaches four days ahead unless told otherwise
PageStatus(a) == IF a.auth = "none" THEN 401 ELSE IF a.auth = "wrong" THEN 403 ELSE IF ~a.ok THEN 400 ELSE 200

\* ships whose arrival is asked from Awake.AI: those Portnet expects within 84 hours at the ports, one call for each ship (its
\* earliest), less those that Awake.AI already sees within a quarter of an hour
Latest(r) == \A q \in rows : q.type = r.type /\ q.port = r.port /\ q.source = r.source /\ q.mmsi = r.mmsi /\ q.mmsi # 0 /\ q.pc = r.pc => q.rt <= r.rt
Expected(ports) == {r \in rows : r.mmsi # 0 /\ r.pc # 0 /\ Latest(r) /\ r.type = "ETA" /\ r.source = Portnet /\ r.port \in ports /\ r.et < now + 84 * Hour
                                /\ \E c \in w.calls : c.id = r.pc /\ c.ata = {} /\ c.at > now - 3 * Day}
Earliest(S) == {r \in S : \A q \in S : q.imo = r.imo => r.et <= q.et}
Close(S) == {a.imo : a \in {a \in rows : a.mmsi # 0 /\ Latest(a) /\ a.type = "ETA" /\ a.source = Awake /\ a.et < now + 15 /\ \E r \in S : r.pc = a.pc}}
EtaShips(ports) == LET S == Earliest(Expected(ports)) IN {[imo |-> r.imo, port |-> r.port, area |-> r.area, pc |-> r.pc, et |-> r.et] : r \in {r \in S : r.imo \notin Close(S)}}

\* ---------------------------------------------------------------- behaviour
Init == \E i \in Inits : w = i.w /\ rows = i.rows /\ pilotages = i.pilotages /\ now = 0 /\ n = 0 /\ out = "-" /\ act = [op |-> "init"]
Quiet == UNCHANGED <<w, rows, pilotages, now, n>>
Valid(q) == CASE q.by = "port" -> Len(q.v) = 5 /\ q.ok [] q.by \in {"mmsi", "imo"} -> q.ok [] OTHER -> TRUE
Do(a) ==
  CASE a.op = "deliver" -> LET x == All(a.batch, rows, <<>>) IN
         n < Steps /\ n' = n + 1 /\ rows' = x.rows /\ out' = x.said /\ UNCHANGED <<w, pilotages, now>>
    [] a.op = "ask" -> LET S == {r \in rows : Told(r) /\ About(a, r)} IN
         (Valid(a) => Clear(S)) /\ Quiet /\ out' = IF Valid(a) THEN [status |-> 200, told |-> Answer(a), sorted |-> TRUE] ELSE [status |-> 400]
    [] a.op = "list" -> Clear({r \in rows : InList(r, a.port, a.h)}) /\ Quiet /\ out' = [told |-> ShipList(a.port, a.h), sorted |-> TRUE]
    [] a.op = "page" -> Quiet /\ out' = IF PageStatus(a) # 200 THEN [status |-> PageStatus(a)] ELSE [status |-> 200, told |-> ShipList(a.port, IF a.h = 0 THEN 96 ELSE a.h), sorted |-> TRUE]
    [] a.op = "etaships" -> Quiet /\ out' = EtaShips(a.ports)
    [] a.op = "tick" -> n < Steps /\ n' = n + 1 /\ now' = now + a.m /\ out' = "-" /\ UNCHANGED <<w, rows, pilotages>>
    [] a.op = "purge" -> n < Steps /\ n' = n + 1 /\ rows' = {r \in rows : r.et >= now - 7 * Day} /\ pilotages' = {p \in pilotages : p >= now - 7 * Day} /\ out' = "-" /\ UNCHANGED <<w, now>>
Actions == {[op |-> "deliver", batch |-> b] : b \in Batches} \cup Queries \cup {[op |-> "tick", m |-> m] : m \in Ticks} \cup (IF Purges THEN {[op |-> "purge"]} ELSE {})
Next == \E a \in Actions : act' = a /\ Do(a)
Spec == Init /\ [][Next]_vars
Obs == [out |-> out', rows |-> rows', pilotages |-> pilotages']
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs, l |-> TLCGet("level")]))

\* ---------------------------------------------------------------- what follows
\* nothing is kept without a ship, and nothing but predictions of Awake.AI without a port call; Portnet has each call in one port
Whole == \A r \in rows : r.imo # 0 /\ (r.pc = 0 => r.source = Pred)
OnePort == \A r, q \in rows : r.source = Portnet /\ q.source = Portnet /\ r.pc = q.pc => r.port = q.port
NoDoubles == \A r, q \in rows : Same(r, q) => r = q
\* what is told is of now, and told once for each call, kind of time and source
Fresh == \A q \in Queries : q.op = "ask" => \A r \in Answer(q) : r.et > now - 12 * Hour - Hour
Invariants == Whole /\ NoDoubles /\ Fresh
=============================================================================
