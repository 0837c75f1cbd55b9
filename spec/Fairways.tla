----------------------------- MODULE Fairways ------------------------------
(* The lights of fairways, made brighter for the ships that move there: where   *)
(* the ships were last seen, until when the lights of each area are bright, and *)
(* what each run, made every minute, asks of them.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Areas,      \* by id: [id, minutes, w, s, e, n]
          Ships,      \* by name: [name, mmsi, known (in the register)]
          Sights,     \* what may be seen: [ship, x, y, sog (tenths of a knot), age (seconds)]
          Goes,       \* runs: [vis, fails (by area, how often the control of lights fails), fault]
          Waits, Steps
VARIABLES now, seen, lit, n, out, act
vars == <<now, seen, lit, n, out, act>>
View == <<now, seen, lit, n>>
Never == 0 - 1
Count == 1..Len(Areas)

\* ------------------------------------------------------------ who moves where
\* at more than two knots, if its speed is known, and seen within two minutes
Moves(s) == Ships[s].known /\ seen[s].sog > 20 /\ seen[s].sog # 1023 /\ seen[s].at # Never /\ seen[s].at >= now - 120
In(s, a) == Areas[a].w <= seen[s].x /\ seen[s].x <= Areas[a].e /\ Areas[a].s <= seen[s].y /\ seen[s].y <= Areas[a].n
Traffic(a) == {s \in 1..Len(Ships) : Moves(s) /\ In(s, a)}
\* ships are listed by their names: the first is named
Named(a) == CHOOSE s \in Traffic(a) : \A t \in Traffic(a) : s <= t
\* not bright, or not for a minute any more
Due(a) == Traffic(a) # {} /\ (lit[a].end = Never \/ lit[a].end < now + 60)

\* ------------------------------------------------------------ a run
Sees(v) == CASE v = "clear" -> 5000 [] v = "fog" -> 0 [] OTHER -> 0 - 1
Asks(a, v) == [area |-> Areas[a].id, vis |-> Sees(v), minutes |-> Areas[a].minutes, mmsi |-> Ships[Named(a)].mmsi, name |-> Ships[Named(a)].name]
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Calls(_, _)
Calls(a, g) == IF a > Len(Areas) THEN <<>>
               ELSE (IF Due(a) THEN [i \in 1..Min(g.fails[a] + 1, 3) |-> Asks(a, g.vis)] ELSE <<>>) \o Calls(a + 1, g)
Stops(g) == g.fault \in {"secret", "connect", "read"}
Brightened(a, g) == ~Stops(g) /\ Due(a) /\ g.fails[a] < 3
\* the keeping of one area's time may fail
Noted(a, g) == Brightened(a, g) /\ ~(g.fault = "first" /\ \A b \in 1..(a - 1) : ~Brightened(b, g)) /\ g.fault # "mark"
Shown == [a \in Count |-> [sent |-> lit'[a].sent, end |-> lit'[a].end]]
Init == now = 1000 /\ seen = [s \in 1..Len(Ships) |-> [x |-> 0, y |-> 0, sog |-> 0, at |-> Never]] /\ lit = [a \in Count |-> [sent |-> Never, end |-> Never]]
        /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Sight(w) == seen' = [seen EXCEPT ![w.ship] = [x |-> w.x, y |-> w.y, sog |-> w.sog, at |-> now - w.age]] /\ UNCHANGED <<now, lit>> /\ out' = [kind |-> "seen"]
Wait(d) == now' = now + d /\ UNCHANGED <<seen, lit>> /\ out' = [kind |-> "waited"]
Go(g) == /\ lit' = [a \in Count |-> IF Noted(a, g) THEN [sent |-> now, end |-> now + 60 * Areas[a].minutes] ELSE lit[a]]
         /\ UNCHANGED <<now, seen>>
         /\ out' = [kind |-> "ran", failed |-> Stops(g), calls |-> IF Stops(g) THEN <<>> ELSE Calls(1, g), lit |-> Shown]
Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "see" -> Sight(a.w) [] a.op = "wait" -> Wait(a.seconds) [] OTHER -> Go(a.g)
\* time starts where the sights of old can be told
Actions == {[op |-> "see", w |-> w] : w \in Sights} \cup {[op |-> "wait", seconds |-> d] : d \in Waits} \cup {[op |-> "go", g |-> g] : g \in Goes}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what holds
Well(g) == g.fault = "-" /\ \A a \in Count : g.fails[a] < 3
\* after a run that goes well, where a ship moves it is bright until the next run at least
Safe == /\ (act.op = "go" /\ Well(act.g)) => \A a \in Count : Traffic(a) # {} => lit[a].end >= now + 60
        /\ \A a \in Count : (lit[a].sent = Never) = (lit[a].end = Never) /\ (lit[a].sent # Never => lit[a].end = lit[a].sent + 60 * Areas[a].minutes)
        /\ (act.op = "go") => \A i \in 1..Len(out.calls) : \E a \in Count : Areas[a].id = out.calls[i].area /\ Traffic(a) # {}
\* no light is asked for that has a minute left, nor are times moved without a ship
Sparing == [][\A a \in Count : lit'[a] # lit[a] => Traffic(a) # {} /\ (lit[a].end = Never \/ lit[a].end < now + 60)]_vars
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
