----------------------------- MODULE WorkTrails ------------------------------
(* Maintenance of the streets of municipalities: the devices in work machines tell where they are and what they do; every run  *)
(* reads the last minutes and makes trackings of them, each of one machine doing the same work on an unbroken way.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Goes, Maps, Sources, Starts, Steps
VARIABLES now, world, known, trails, sourced, stamped, checked, n, out, act
vars == <<now, world, known, trails, sourced, stamped, checked, n, out, act>>
View == <<now, world, known, trails, sourced, stamped, checked, n>>
Range(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x

\* ---- what works are: the channels of a device as the domain names them
Trim(c) == IF c = " plough " THEN "plough" ELSE c
TaskOf(c, k) == {m.task : m \in {x \in k : x.name = Trim(c) /\ ~x.ignore}}
Tasks(ch, k) == UNION {TaskOf(c, k) : c \in Range(ch)}
Heard(names, k) == k \cup {[name |-> Trim(c), task |-> "UNKNOWN", ignore |-> TRUE] : c \in {x \in Range(names) : ~\E m \in k : m.name = Trim(x)}}

\* ---- whether a machine went on from p at s to q at t: within five minutes and five seconds, in a way it can have driven.
\* Distances are in metres, times in seconds; speeds, of d metres in x seconds, in km/h as d * 3.6 / x.
GoesOn(p, q, s, t) ==
  LET d == Abs(p - q)
      x == t - s
  IN IF x < 0 \/ x > 305 \/ d > 520 THEN FALSE
     ELSE IF d > 50 /\ (x = 0 \/ d * 36 > 800 * x) THEN FALSE
     ELSE IF d > 200 THEN d * 36 >= 200 * x
     ELSE IF d > 50 THEN d * 36 >= 50 * x
     ELSE TRUE

\* ---- the events of a device in order, put together to ways
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : \A y \in S : x.t <= y.t IN <<e>> \o InOrder(S \ {e})
Same(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
RECURSIVE Ways(_, _)
Ways(es, g) ==
  IF es = <<>> THEN g
  ELSE LET e == Head(es)
           last == g[Len(g)]
           prev == last[Len(last)]
       IN IF g = <<>> THEN Ways(Tail(es), <<<<e>>>>)
          ELSE IF ~GoesOn(prev.p, e.p, prev.t, e.t) THEN Ways(Tail(es), Append(g, <<e>>))
          ELSE IF Same(prev.ch, e.ch) THEN Ways(Tail(es), [g EXCEPT ![Len(g)] = Append(last, e)])
          \* another work begins where the one before ended
          ELSE Ways(Tail(es), Append([g EXCEPT ![Len(g)] = Append(last, [e EXCEPT !.ch = prev.ch])], <<e>>))
RECURSIVE Points(_, _)
Points(w, ps) == IF w = <<>> THEN ps ELSE IF ps # <<>> /\ ps[Len(ps)] = Head(w).p THEN Points(Tail(w), ps) ELSE Points(Tail(w), Append(ps, Head(w).p))
Trail(w, k) == [dev |-> w[1].dev, start |-> w[1].t, end |-> w[Len(w)].t, pts |-> Points(w, <<>>), last |-> w[Len(w)].p, dir |-> w[Len(w)].h,
                open |-> FALSE, prev |-> -1, tasks |-> Tasks(w[1].ch, k)]

\* ---- what a run makes of a device: it goes on from the way that is still open
Open(d) == {i \in 1..Len(trails) : trails[i].dev = d /\ trails[i].open /\ ~\E j \in 1..Len(trails) : trails[j].dev = d /\ trails[j].prev = trails[i].start}
Latest(d) == CHOOSE i \in Open(d) : \A j \in Open(d) : trails[j].end <= trails[i].end
Max0 == 0 - 1000000
Seen(w, at, k) == {e \in w : e.t >= at - 540 /\ e.t <= at - 120 /\ Tasks(e.ch, k) # {}}
Fresh(d, seen) == LET since == IF Open(d) = {} THEN Max0 ELSE trails[Latest(d)].end IN {e \in seen : e.dev = d /\ e.t > since}
\* the trails as they are when those of the device have been added
With(ts, d, es, h, k) ==
  LET ways == Ways(InOrder(es), <<>>)
      raw == [i \in 1..Len(ways) |-> [Trail(ways[i], k) EXCEPT !.open = (i = Len(ways))]]
      f == raw[1]
      l == h[Latest(d)]
      joins == GoesOn(l.last, f.pts[1], l.end, f.start)
      \* the machine drove on to where the new way begins
      old == IF joins /\ l.last # f.pts[1] THEN [l EXCEPT !.open = FALSE, !.end = f.start, !.pts = Append(@, f.pts[1]), !.last = f.pts[1], !.dir = ways[1][1].h]
             ELSE [l EXCEPT !.open = FALSE]
      first == IF joins /\ l.tasks = f.tasks THEN [raw EXCEPT ![1].prev = l.start] ELSE raw
  IN IF Open(d) = {} THEN ts \o raw ELSE [ts EXCEPT ![Latest(d)] = old] \o first
Works(ways) == UNION {w.tasks : w \in Range(ways)}
Strikes(f, d, es) == f \in {"machine", "trail", "stamp", "task"} \/ (f = "mark" /\ Open(d) # {} /\ es # {})
Bad(d, es, f, k) == IF es = {} THEN f = "machine" ELSE Strikes(f, d, es) \/ \E e \in es : "BOGUS" \in Tasks(e.ch, k)
RECURSIVE Fold(_, _, _, _, _)
Fold(ds, seen, f, k, r) ==
  IF ds = <<>> THEN r
  ELSE LET d == Head(ds)
           es == Fresh(d, seen)
           bad == Bad(d, es, f, k)
           ts == IF bad \/ es = {} THEN r.ts ELSE With(r.ts, d, es, trails, k)
       IN Fold(Tail(ds), seen, f, k, [ts |-> ts, saved |-> r.saved + Len(ts) - Len(r.ts), errors |-> r.errors + IF bad THEN 1 ELSE 0])
RECURSIVE Devices(_, _)
Devices(S, done) == IF S = {} THEN done ELSE LET d == CHOOSE x \in S : \A y \in S : x <= y IN Devices(S \ {d}, Append(done, d))

Shows == {[t EXCEPT !.dev = @] : t \in Range(trails')}
Go(g) ==
  LET w == {e \in world : e.t >= now - 900} \cup {[dev |-> e.dev, t |-> now + e.at, p |-> e.p, ch |-> e.ch, h |-> e.h] : e \in {x \in Range(g.events) : ~\E y \in world : y.dev = x.dev /\ y.t = now + x.at}}
      at == now + g.wait
      k == IF g.fault \in {"secret", "connect", "devices"} THEN known ELSE Heard(g.names, known)
      seen == Seen(w, at, k)
      early == g.fault \in {"secret", "connect", "devices", "events"}
      skip == early /\ (g.fault # "events" \/ sourced)
      r == IF ~sourced \/ skip THEN [ts |-> trails, saved |-> 0, errors |-> 0] ELSE Fold(Devices({e.dev : e \in seen}, <<>>), seen, g.fault, k, [ts |-> trails, saved |-> 0, errors |-> 0])
      fails == skip \/ g.fault = "checked"
  IN /\ now' = at /\ world' = w /\ known' = k /\ trails' = r.ts
     /\ stamped' = IF r.saved > 0 THEN at ELSE stamped
     /\ checked' = IF fails THEN checked ELSE at
     /\ out' = [kind |-> "ran", failed |-> fails, saved |-> IF fails THEN 0 ELSE r.saved, errors |-> IF fails THEN 0 ELSE r.errors, trails |-> Range(trails'), count |-> Len(trails'), known |-> known', stamped |-> stamped', checked |-> checked']
     /\ UNCHANGED sourced
\* those who look after the domain say what a channel means, or whether it has a source at all
Map(m) == /\ known' = {x \in known : x.name # m.name} \cup {m} /\ out' = [kind |-> "mapped"]
          /\ UNCHANGED <<now, world, trails, sourced, stamped, checked>>
Source(b) == /\ sourced' = b /\ out' = [kind |-> "sourced"] /\ UNCHANGED <<now, world, known, trails, stamped, checked>>
Init == \E s \in Starts : /\ known = s.known /\ sourced = s.sourced
        /\ now = 0 /\ world = {} /\ trails = <<>> /\ stamped = -1 /\ checked = -1 /\ n = 0 /\ out = [kind |-> "-"] /\ act = [op |-> "init"]
Do(a) == n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "go" -> Go(a.g) [] a.op = "map" -> Map(a.m) [] a.op = "source" -> Source(a.b)
Actions == {[op |-> "go", g |-> g] : g \in Goes} \cup {[op |-> "map", m |-> m] : m \in Maps} \cup {[op |-> "source", b |-> b] : b \in Sources}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
Of(d) == {t \in Range(trails) : t.dev = d}
\* of each machine at most one way is open, and it is the newest; ways do not overlap; each has a work that is known
OneOpen == \A t \in Range(trails) : t.open => \A o \in Of(t.dev) : o = t \/ (~o.open /\ o.end <= t.start)
Apart == \A t, o \in Range(trails) : t.dev = o.dev /\ t # o => t.end <= o.start \/ o.end <= t.start
Ordered == \A t \in Range(trails) : t.start <= t.end /\ t.tasks # {} /\ t.pts # <<>> /\ t.pts[Len(t.pts)] = t.last
Chained == \A t \in Range(trails) : t.prev # -1 => \E o \in Of(t.dev) : o.start = t.prev /\ o.start < t.start /\ o.tasks = t.tasks /\ o.end <= t.start
Safe == OneOpen /\ Apart /\ Ordered /\ Chained
\* what was finished stays as it was
Final == [][\A t \in Range(trails) : ~t.open => t \in Range(trails')]_vars
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
