----------------------------- MODULE TrackNews -----------------------------
(* What stop monitoring says of a train's delays and tracks that nobody knows: *)
(* read out of the messages, handed on, and kept by the train's timetable,     *)
(* with all that it was before.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Timetable,  \* rows: [att, train, date, at (station), minute, type]
          Batches,    \* what may come at once
          Tables,     \* what may be missing from the timetable
          Faults, Waits, Steps
VARIABLES now, unknown, history, told, gone, n, out, act
vars == <<now, unknown, history, told, gone, n, out, act>>
View == <<now, unknown, history, told, n, gone>>
Day == 1440
Range(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------------------ what a message says
\* of each call where people may board: of its arrival, if it has one, and of its departure
Says(c) == (IF c.boards /\ c.arr # -1 THEN <<[at |-> c.at, sec |-> c.arr, type |-> 0, ud |-> ~c.arrKnown, ut |-> ~c.arrTrack]>> ELSE <<>>)
           \o (IF c.boards /\ c.dep # -1 THEN <<[at |-> c.at, sec |-> c.dep, type |-> 1, ud |-> ~c.depKnown, ut |-> ~c.depTrack]>> ELSE <<>>)
RECURSIVE AllSay(_)
AllSay(cs) == IF cs = <<>> THEN <<>> ELSE Says(Head(cs)) \o AllSay(Tail(cs))
Data(m) == AllSay(m.calls)
\* handed on is what says something, of trains only
HandedOn(m) == m.kind = "sm" /\ ~m.bus /\ Data(m) # <<>>
Rows(m) == {r \in Range(Timetable) : r.train = m.train /\ r.date = m.date /\ r.att \notin gone}
\* a row of the timetable is meant when it is of the same place, kind and minute
Meant(m, d) == {r \in Rows(m) : r.at = d.at /\ r.type = d.type /\ r.minute * 60 <= d.sec /\ d.sec < r.minute * 60 + 60}

\* ------------------------------------------------------------ what is kept
Of(u, att) == {i \in 1..Len(u) : u[i].att = att}
\* one word about one row: news is kept, also that nothing is unknown any more, but not that nothing ever was
Word(k, att, d) ==
  LET i == CHOOSE x \in Of(k.u, att) : TRUE
      new == [att |-> att, ud |-> d.ud, ut |-> d.ut, since |-> now]
      changes == d.ud \/ d.ut \/ (Of(k.u, att) # {} /\ (k.u[i].ud \/ k.u[i].ut))
  IN IF ~changes THEN k
     ELSE [u |-> IF Of(k.u, att) = {} THEN Append(k.u, new) ELSE [k.u EXCEPT ![i] = [@ EXCEPT !.ud = d.ud, !.ut = d.ut]],
           h |-> Append(k.h, new)]
RECURSIVE Words(_, _, _)
Words(k, m, ds) == IF ds = <<>> THEN k
                   ELSE LET ms == Meant(m, Head(ds)) IN Words(IF ms = {} THEN k ELSE Word(k, (CHOOSE r \in ms : TRUE).att, Head(ds)), m, Tail(ds))
\* a statement is tried three times; a message is kept whole or not at all
Found(m) == \E i \in 1..Len(Data(m)) : Meant(m, Data(m)[i]) # {}
Fails(k, m, f) == CASE f \in {"connect", "rows"} -> TRUE [] f \in {"begin", "commit"} -> Rows(m) # {} [] f = "thrice" -> Found(m)
                    [] f = "history" -> Words(k, m, Data(m)) # k [] OTHER -> FALSE
RECURSIVE Follow(_, _, _)
Follow(k, b, f) ==
  IF b = <<>> THEN [k |-> k, failed |-> <<>>]
  ELSE LET bad == Fails(k, Head(b), f)
           rest == Follow(IF bad THEN k ELSE Words(k, Head(b), Data(Head(b))), Tail(b), IF bad THEN "-" ELSE f)
       IN [k |-> rest.k, failed |-> <<bad>> \o rest.failed]
Kept(u) == {[att |-> u[i].att, ud |-> u[i].ud, ut |-> u[i].ut] : i \in 1..Len(u)}
\* the history of a row: how its word changed
RECURSIVE Changes(_)
Changes(h) == IF h = <<>> THEN <<>> ELSE LET l == h[Len(h)] p == SelectSeq(SubSeq(h, 1, Len(h) - 1), LAMBDA e : e.att = l.att)
                                         IN Changes(SubSeq(h, 1, Len(h) - 1)) \o (IF p # <<>> /\ p[Len(p)].ud = l.ud /\ p[Len(p)].ut = l.ut THEN <<>> ELSE <<[att |-> l.att, ud |-> l.ud, ut |-> l.ut]>>)
Story(h) == [a \in {r.att : r \in Range(Timetable)} |-> Changes(SelectSeq(h, LAMBDA e : e.att = a))]
Shows(u, h, t) == [unknown |-> Kept(u), history |-> {[att |-> a, story |-> Story(h)[a]] : a \in {e.att : e \in Range(h)}}, told |-> {[id |-> t[i].id, train |-> t[i].train, date |-> t[i].date] : i \in 1..Len(t)}]

Later == {41}
Init == gone = Later /\ now = 0 /\ unknown = <<>> /\ history = <<>> /\ told = <<>> /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Come(b, f) ==
  LET on == SelectSeq(b, HandedOn)
      r == Follow([u |-> unknown, h |-> history], on, f)
      heard == SelectSeq(b, LAMBDA m : m.kind = "sm")
  IN /\ told' = told \o [i \in 1..Len(heard) |-> [id |-> heard[i].id, train |-> heard[i].train, date |-> heard[i].date, since |-> now]]
     /\ unknown' = r.k.u /\ history' = r.k.h /\ UNCHANGED <<now, gone>>
     /\ out' = [kind |-> "came", letters |-> Len(SelectSeq(b, LAMBDA m : m.kind = "odd")), on |-> [i \in 1..Len(on) |-> [id |-> on[i].id, train |-> on[i].train, date |-> on[i].date, data |-> Data(on[i])]],
                failed |-> r.failed, kept |-> Shows(unknown', history', told')]
\* after a day everything goes
Young(s) == SelectSeq(s, LAMBDA e : e.since >= now - Day)
Wait(d) == now' = now + d /\ UNCHANGED <<unknown, history, told, gone>> /\ out' = [kind |-> "waited"]
\* the timetable is made anew
Turn(g) == g # gone /\ gone' = g /\ UNCHANGED <<now, unknown, history, told>> /\ out' = [kind |-> "turned"]
Clean(f) == /\ IF f = "-" THEN unknown' = Young(unknown) /\ history' = Young(history) /\ told' = Young(told) ELSE UNCHANGED <<unknown, history, told>>
            /\ UNCHANGED <<now, gone>> /\ out' = [kind |-> "cleaned", failed |-> f # "-", kept |-> Shows(unknown', history', told')]
Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "come" -> Come(a.batch, a.fault) [] a.op = "wait" -> Wait(a.minutes) [] a.op = "table" -> Turn(a.gone) [] OTHER -> Clean(a.fault)
Actions == {[op |-> "come", batch |-> b, fault |-> f] : b \in Batches, f \in Faults \ {"letters"}} \cup {[op |-> "wait", minutes |-> d] : d \in Waits} \cup {[op |-> "table", gone |-> g] : g \in Tables}
           \cup (IF Waits = {} THEN {} ELSE {[op |-> "clean", fault |-> f] : f \in {"-", "connect", "commit", "letters"} \cap (Faults \cup {"-"})})
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
\* a row has one word, which is the last of its history, and only rows of the timetable have one
OneWord == \A a \in {r.att : r \in Range(Timetable)} : Cardinality(Of(unknown, a)) <= 1
InTime == \A e \in Range(unknown) \cup Range(history) : e.att \in {r.att : r \in Range(Timetable)}
Last == \A e \in Range(unknown) : LET h == SelectSeq(history, LAMBDA x : x.att = e.att) IN h # <<>> /\ h[Len(h)].ud = e.ud /\ h[Len(h)].ut = e.ut
\* history begins with something that was unknown
Begins == \A e \in Range(unknown) : e.since >= 0 /\ \E x \in Range(history) : x.att = e.att /\ (x.ud \/ x.ut)
Safe == OneWord /\ InTime /\ Last /\ Begins
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
