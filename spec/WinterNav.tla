----------------------------- MODULE WinterNav -------------------------------
(* Winter navigation: a copy of what the source of the data holds - locations with     *)
(* their restrictions and suspensions, vessels with assistances and activities,        *)
(* dirways - is kept up by asking, kind by kind, for what has changed since the        *)
(* version last taken over, and is served to the public.  Fetches fail, runs are cut   *)
(* off at any statement, and the source moves on while a run is under way.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Values,    \* kind -> id -> the forms an object may have, by number
          Part,      \* which of the public answers are looked at
          Batches,   \* what the source may change at once: sequences of <<kind, id, form>>, form 0 withdraws
          Runs,      \* how a run of the updater may go
          First,     \* what is there to begin with
          Asks, Steps
VARIABLES src, v,      \* the source: each object's form and the version it got it in; the version of all
          db,          \* the copy
          hi, exact,   \* the version up to which a kind has been taken over; a cut-off run leaves only a bound
          dirty, chk, now, can, out, act
vars == <<src, v, db, hi, exact, dirty, chk, now, can, out, act>>
View == <<src, v, db, hi, exact, dirty, chk, now, can>>

Kinds == DOMAIN Values
None == 0 - 999
Never == 0 - 1
Unknown == 0 - 2
Fill(x) == [k \in Kinds |-> [id \in DOMAIN Values[k] |-> x]]
Each(x) == [k \in Kinds |-> x]
Init == /\ src = Fill([val |-> Never, rv |-> 0 - 1]) /\ v = 1 /\ db = Fill(Never) /\ hi = Each(0 - 1) /\ exact = Each(TRUE) /\ dirty = {} /\ chk = Each(Never)
        /\ now = 0 /\ can = TRUE /\ out = "-" /\ act = [op |-> "init"]

Touched(b, k, id) == \E i \in DOMAIN b : b[i][1] = k /\ b[i][2] = id
FormIn(b, k, id) == b[CHOOSE i \in DOMAIN b : b[i][1] = k /\ b[i][2] = id][3]
Changed(b) == [k \in Kinds |-> [id \in DOMAIN Values[k] |-> IF Touched(b, k, id) THEN [val |-> FormIn(b, k, id), rv |-> v + 1] ELSE src[k][id]]]
\* every assistance and activity is of icebreakers and ships that are there
Whole(d) == IF "vessel" \notin Kinds THEN TRUE
            ELSE /\ \A x, y \in {z \in DOMAIN Values["vessel"] : d["vessel"][z] > 0} : x # y =>
                      LET f == Values["vessel"][x][d["vessel"][x]] g == Values["vessel"][y][d["vessel"][y]] IN (f.imo = g.imo => f.imo = 0) /\ (f.mmsi = g.mmsi => f.mmsi = 0)
                 /\ \A s \in DOMAIN Values["source"] : d["source"][s] > 0 => d["vessel"][Values["source"][s][d["source"][s]].vessel_id] > 0
                 /\ \A k \in {"queue", "activity"} : \A q \in DOMAIN Values[k] : d[k][q] > 0 =>
                      LET f == Values[k][q][d[k][q]] IN d["source"][f.icebreaker_id] > 0 /\ (f.vessel_id # "-" => d["vessel"][f.vessel_id] > 0)
\* a withdrawal is of something that is there; some part of it is news (the whole is told again when something is put back)
Sensible(b) == /\ \A i \in DOMAIN b : b[i][3] = 0 => src[b[i][1]][b[i][2]].val > 0
               /\ \E i \in DOMAIN b : IF b = First /\ v > 1 THEN src[b[i][1]][b[i][2]].val = 0 ELSE b[i][3] # src[b[i][1]][b[i][2]].val
               /\ v = 1 => b = First
               /\ Whole([k \in Kinds |-> [id \in DOMAIN Values[k] |-> Changed(b)[k][id].val]])
Told(b) == [i \in DOMAIN b |-> [kind |-> b[i][1], id |-> b[i][2], gone |-> b[i][3] = 0, f |-> IF b[i][3] = 0 THEN <<>> ELSE Values[b[i][1]][b[i][2]][b[i][3]]]]
Change(b) == /\ Sensible(b) /\ src' = Changed(b) /\ v' = v + 1 /\ out' = "-"
             /\ UNCHANGED <<db, hi, exact, dirty, chk>>
Max(a, b) == IF a > b THEN a ELSE b
Run(r) ==
  IF r.crash # "none"
  THEN /\ out' = "crashed" /\ dirty' = Kinds /\ exact' = Each(FALSE) /\ hi' = [k \in Kinds |-> Max(hi[k], v)] /\ chk' = Each(Unknown) /\ UNCHANGED <<src, v, db>>
  ELSE IF r.noversion THEN out' = "failed" /\ UNCHANGED <<src, v, db, hi, exact, dirty, chk>>
  ELSE /\ r.mid # <<>> => dirty = {} /\ Sensible(r.mid)
       /\ out' = "done"
       \* what changes while the run is under way gets a version the run does not ask for
       /\ src' = IF r.mid = <<>> THEN src ELSE Changed(r.mid)
       /\ v' = IF r.mid = <<>> THEN v ELSE v + 1
       /\ LET new(k) == {id \in DOMAIN Values[k] : src'[k][id].rv > hi[k] /\ src'[k][id].rv <= v}
              still(k) == k \in r.fail \/ (exact[k] /\ hi[k] = v)
          IN /\ db' = [k \in Kinds |-> IF still(k) THEN db[k] ELSE [id \in DOMAIN Values[k] |-> IF src'[k][id].rv <= v THEN src'[k][id].val ELSE db[k][id]]]
             /\ exact' = [k \in Kinds |-> IF still(k) THEN exact[k] ELSE exact[k] \/ new(k) # {}]
             /\ hi' = [k \in Kinds |-> IF still(k) THEN hi[k] ELSE IF exact[k] /\ new(k) = {} THEN hi[k] ELSE v]
             /\ chk' = TLCEval([k \in Kinds |-> IF still(k) THEN chk[k] ELSE IF exact[k] \/ v > hi[k] THEN now ELSE Unknown])
             /\ dirty' = dirty \cap r.fail
Do(a) == CASE a.op = "change" -> Change(a.raw) [] a.op = "run" -> Run(a)
Actions == {[op |-> "change", raw |-> b, b |-> Told(b)] : b \in Batches}
           \cup {[op |-> "run", crash |-> r.crash, noversion |-> r.noversion, fail |-> r.fail, mid |-> r.mid, b |-> Told(r.mid)] : r \in Runs}
Plain(a) == a.crash = "none" /\ ~a.noversion /\ a.fail = {} /\ a.mid = <<>>
\* the source is followed: it changes once, then the updater runs, again if it needs to
Next == \E a \in Actions : /\ now < Steps /\ now' = now + 1 /\ act' = a
                           /\ IF a.op = "change" THEN can /\ now < Steps - 1 ELSE IF Plain(a) THEN TRUE ELSE ~can /\ now < Steps - 1
                           /\ can' = (a.op = "run") /\ Do(a)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what is served
Live(k) == {id \in DOMAIN db[k] : db[k][id] > 0}
F(k, id) == Values[k][id][db[k][id]]
Checked(k) == chk[k]
Restriction(r) == LET f == F("restriction", r) IN [start |-> f.start_time, end |-> f.end_time, text |-> f.text_compilation]
Suspension(s) == LET f == F("port-suspension", s) IN [start |-> f.start_time, end |-> f.end_time, pre |-> f.prenotification, closed |-> f.ports_closed, due |-> f.due_to, more |-> f.specifications]
LocationOf(l) ==
  LET f == F("location", l) IN
  [name |-> f.name, type |-> f.type, locodes |-> f.locode_list, nation |-> f.nationality, at |-> <<f.longitude, f.latitude>>, winter |-> f.winterport,
   restrictions |-> {Restriction(r) : r \in {r \in Live("restriction") : F("restriction", r).location_id = l}},
   suspensions |-> {Suspension(s) : s \in {s \in Live("port-suspension") : \E p \in Live("port-suspension-location") : F("port-suspension-location", p).suspension_id = s /\ F("port-suspension-location", p).location_id = l}}]
LocationsServed ==
  [all |-> {LocationOf(l) : l \in Live("location")}, updated |-> Checked("location"),
   one |-> [c \in Asks |-> LET S == {l \in Live("location") : c \in F("location", l).codes} IN
              IF S = {} THEN [status |-> 404] ELSE [status |-> 200, it |-> LocationOf(CHOOSE l \in S : TRUE)]]]

DirwaysServed ==
  LET points(d) == {p \in Live("dirwaypoint") : F("dirwaypoint", p).dirway_id = d}
      place(p) == <<F("dirwaypoint", p).longitude, F("dirwaypoint", p).latitude>>
      rank(p, S) == Cardinality({q \in S : F("dirwaypoint", q).order_num < F("dirwaypoint", p).order_num}) + 1
      line(S) == [i \in 1..Cardinality(S) |-> place(CHOOSE p \in S : rank(p, S) = i)]
  IN [all |-> {[name |-> F("dirway", d).name, text |-> F("dirway", d).description, line |-> line(points(d))] : d \in {d \in Live("dirway") : points(d) # {}}}, updated |-> Checked("dirway")]

\* an ended one is there while it overlaps the time asked for; an open one by its start
During(f, from, to) == IF f.end_time # None THEN f.start_time <= to /\ f.end_time >= from ELSE f.start_time >= from /\ f.start_time <= to
VesselOfSource(s) == F("source", s).vessel_id
Who(x) == LET f == F("vessel", x) IN [imo |-> f.imo, mmsi |-> f.mmsi, name |-> f.name]
Nobody == [imo |-> 0, mmsi |-> 0, name |-> "-"]
\* what concerns a vessel: the assistance or activity, and how it is shown to that vessel
Concerns(k, x) ==
  LET mine == {q \in Live(k) : F(k, q).vessel_id = x \/ VesselOfSource(F(k, q).icebreaker_id) = x}
      \* the ship on the other side: the one that helps, the one that is helped, or none
      side(f) == IF f.vessel_id = "-" THEN "none" ELSE IF f.vessel_id = x THEN "by" ELSE "to"
      other(f) == IF f.vessel_id = "-" THEN Nobody ELSE IF f.vessel_id = x THEN Who(VesselOfSource(f.icebreaker_id)) ELSE Who(f.vessel_id)
      shown(f) == IF k = "queue" THEN [start |-> f.start_time, end |-> f.end_time, order |-> f.order_num, side |-> side(f), other |-> other(f)]
                  ELSE [start |-> f.start_time, end |-> f.end_time, type |-> f.type, reason |-> f.reason, comment |-> f.public_comment, side |-> side(f), other |-> other(f)]
  IN {<<F(k, q), shown(F(k, q))>> : q \in mine}
VesselOf(x, of, from, to) ==
  LET f == F("vessel", x)
      within(S) == {e[2] : e \in {y \in S : During(y[1], from, to)}}
  IN [name |-> f.name, imo |-> f.imo, mmsi |-> f.mmsi, callsign |-> f.callsign, shortcode |-> f.shortcode, type |-> f.type,
      queues |-> within(of.queues), activities |-> within(of.activities)]
Late == 1000000
To(a) == IF a.to = None THEN Late ELSE a.to
Answers(of) ==
  [updated |-> Checked("vessel"),
   asked |-> {[ask |-> a, is |->
      IF a.id = 0
      THEN LET from == IF a.from = None THEN now - 7 * 1440 ELSE a.from
               S == {VesselOf(x, of[x], from, To(a)) : x \in Live("vessel")}
           IN [status |-> 200, all |-> {x \in S : x.queues # {} \/ x.activities # {}}]
      ELSE LET S == {x \in Live("vessel") : F("vessel", x).imo = a.id \/ F("vessel", x).mmsi = a.id} IN
           IF S = {} THEN [status |-> 404]
           ELSE LET x == CHOOSE x \in S : TRUE IN [status |-> 200, all |-> {VesselOf(x, of[x], IF a.from = None THEN 0 - Late ELSE a.from, To(a))}]] : a \in Asks}]
\* (bound through a set, so that TLC works it out once)
VesselsServed == CHOOSE r \in {Answers(of) : of \in {TLCEval([x \in Live("vessel") |-> [queues |-> TLCEval(Concerns("queue", x)), activities |-> TLCEval(Concerns("activity", x))]])}} : TRUE
Served == CASE Part = "locations" -> LocationsServed [] Part = "dirways" -> DirwaysServed [] Part = "vessels" -> VesselsServed
\* what was cut off, or came in parts that do not fit together, is not judged until a run has gone well
Blurred == dirty # {} \/ ~Whole(db)
Obs == [out |-> out, dirty |-> Blurred, served |-> IF Blurred THEN <<>> ELSE Served,
        \* even then, what has been withdrawn is not listed
        names |-> IF Part # "vessels" \/ dirty # {} THEN {"any"} ELSE {F("vessel", x).name : x \in Live("vessel")}]
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))

\* ---------------------------------------------------------------- what must hold
Same(x, y) == x = y \/ (x <= 0 /\ y <= 0)
\* what has been taken over is as it was at the source
InStep == \A k \in Kinds \ dirty : \A id \in DOMAIN Values[k] : src[k][id].rv <= hi[k] => Same(db[k][id], src[k][id].val)
\* whatever went wrong before, one run that goes well sets everything right
Recovers == [][(act'.op = "run" /\ out' = "done" /\ act'.fail = {} /\ act'.mid = <<>>) => dirty' = {} /\ \A k \in Kinds : \A id \in DOMAIN Values[k] : Same(db'[k][id], src'[k][id].val)]_vars
Invariants == InStep
=============================================================================
