---------------------------- MODULE RailMessages ----------------------------
(* Passenger information of trains and stations: what an operator sends is kept, *)
(* version by version, and the public sees the newest word of each message while *)
(* it holds.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts,     \* what has been sent before (sequences of messages)
          Batches,    \* sequences of messages that may come at once
          Faults,     \* where the database may fail
          Uploads, Letters,  \* what may be handed in; dead letters
          Queries, Afters,   \* what the public may ask
          Waits, Steps
VARIABLES now, kept, n, out, act
vars == <<now, kept, n, out, act>>
View == <<now, kept, n>>
\* times are minutes; -1, "-" and [on |-> FALSE] stand for what is not said
Week == <<"MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY">>
Range(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------------------ what the public is told of a message
\* the clock's hour loses its leading zero
Hour(t) == CASE t = "08:05" -> "8:05" [] t = "00:30" -> "0:30" [] OTHER -> t
Days(ds) == SelectSeq(Week, LAMBDA d : d \in Range(ds))
Said(texts, lang) == LET found == SelectSeq(texts, LAMBDA t : t.lang = lang) IN IF found = <<>> THEN "-" ELSE found[1].shown
Texts(part) == [fi |-> Said(part.texts, "fi_FI"), sv |-> Said(part.texts, "sv_SE"), en |-> Said(part.texts, "en_GB")]
Speaks(part) == part.on /\ \E l \in {"fi_FI", "sv_SE", "en_GB"} : Said(part.texts, l) \notin {"-", ""}
NoRules == [type |-> "-", from |-> -1, to |-> -1, start |-> "-", end |-> "-", days |-> <<>>, at |-> -1, times |-> -1, every |-> -1, event |-> "-"]
Something(r) == r.type # "-" \/ r.from # -1 \/ r.to # -1 \/ r.start # "-" \/ r.end # "-" \/ r.days # <<>> \/ r.at # -1 \/ r.times > 0 \/ r.every > 0 \/ r.event # "-"
\* of a message of a train: sound is told by event or schedule, pictures without rules; of a general one by time and day
Ruled(m, part, sound) ==
  LET r == part.rules
      q == IF m.type = "train" THEN IF sound THEN [NoRules EXCEPT !.type = r.type, !.times = r.times, !.every = r.every, !.event = r.event] ELSE NoRules
           ELSE IF sound THEN [r EXCEPT !.event = "-"] ELSE [r EXCEPT !.event = "-", !.at = -1, !.times = -1, !.every = -1]
  IN [q EXCEPT !.start = Hour(@), !.end = Hour(@), !.days = Days(@)]
Part(m, part, sound) == IF ~Speaks(part) THEN [on |-> FALSE]
                        ELSE [on |-> TRUE, text |-> Texts(part), rules |-> IF Something(Ruled(m, part, sound)) THEN Ruled(m, part, sound) ELSE NoRules]
Public(m) == [id |-> m.id, version |-> m.ver, created |-> m.created, from |-> m.from, to |-> m.to,
              train |-> IF m.type = "train" THEN m.train ELSE -1, date |-> IF m.type = "train" THEN m.date ELSE "-",
              stations |-> Range(m.points), audio |-> Part(m, m.audio, TRUE), video |-> Part(m, m.video, FALSE)]

\* ------------------------------------------------------------ what is kept
Newest(k, r) == \A i \in 1..Len(k) : k[i].m.id = r.m.id => k[i].m.ver <= r.m.ver
Shown(k) == {r \in Range(k) : ~r.gone /\ Newest(k, r)}
Holds(m) == m.from <= now /\ now < m.to
Fits(m, q) == /\ (q.train = -1 \/ (m.type = "train" /\ m.train = q.train))
              /\ (q.date = "-" \/ (m.type = "train" /\ m.date = q.date))
              /\ (q.station = "-" \/ q.station \in Range(m.points))
              /\ (q.general => m.type # "train")
All == [train |-> -1, date |-> "-", station |-> "-", general |-> FALSE]
Seen(k, q) == {Public(r.m) : r \in {x \in Shown(k) : Holds(x.m) /\ Fits(x.m, q)}}
Since(k, q, t, active) == {Public(r.m) : r \in {x \in Shown(k) : x.m.created >= t /\ (active => Holds(x.m)) /\ Fits(x.m, q)}}

\* one message after another: a fault strikes the first whose way leads over it
Has(k, m) == \E i \in 1..Len(k) : k[i].m.id = m.id /\ k[i].m.ver = m.ver
\* a version that is there already ends at the first statement
Reaches(k, m, f) == CASE f = "-" -> FALSE [] f \in {"connect", "begin"} -> m.op # "junk" [] f = "main" -> m.op \in {"INSERT", "UPDATE"} [] f = "delete" -> m.op = "DELETE"
                      [] f = "commit" -> m.op = "DELETE" \/ (m.op # "junk" /\ ~Has(k, m)) [] OTHER -> m.op \in {"INSERT", "UPDATE"} /\ ~Has(k, m) /\ (f = "stations" => m.points # <<>>)
RECURSIVE Run(_, _, _)
Run(k, b, f) ==   \* [kept, failed: which failed, letters: what goes to the dead letters]
  IF b = <<>> THEN [kept |-> k, failed |-> <<>>, letters |-> <<>>]
  ELSE LET m == Head(b)
           struck == Reaches(k, m, f)
           fails == struck \/ m.op = "junk" \/ (m.op \in {"INSERT", "UPDATE"} /\ Has(k, m))
           k2 == IF fails THEN k
                 ELSE IF m.op = "DELETE" THEN [i \in 1..Len(k) |-> IF k[i].m.id = m.id THEN [k[i] EXCEPT !.gone = TRUE] ELSE k[i]]
                 ELSE Append(k, [m |-> m, gone |-> FALSE])
           rest == Run(k2, Tail(b), IF struck THEN "-" ELSE f)
       IN [kept |-> rest.kept, failed |-> <<fails>> \o rest.failed, letters |-> (IF fails /\ m.op # "junk" THEN <<m.id>> ELSE <<>>) \o rest.letters]
Init == now = 0 /\ (\E b \in Starts : kept = Run(<<>>, b, "-").kept) /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Process(b, f) == LET r == Run(kept, b, f) IN
  kept' = r.kept /\ out' = [kind |-> "processed", failed |-> r.failed, letters |-> r.letters, active |-> Seen(r.kept, All)] /\ UNCHANGED now
Wait(d) == now' = now + d /\ out' = [kind |-> "waited", active |-> {Public(r.m) : r \in {x \in Shown(kept) : x.m.from <= now' /\ now' < x.m.to}}] /\ UNCHANGED kept

\* ------------------------------------------------------------ what the public asks
\* parameters come as text, those that are not given as ""
TrainOf(t) == CASE t = "" -> -1 [] t = "1" -> 1 [] t = "274" -> 274 [] t = "2741" -> 2741 [] OTHER -> -2
DateOf(t) == CASE t = "" -> "-" [] t \in {"2026-02-03", "2026-02-04"} -> t [] OTHER -> "bad"
StationOf(t) == CASE t = "" -> "-" [] t = "H" -> "bad" [] OTHER -> t
FlagOf(t, default) == CASE t = "true" -> "yes" [] t = "false" -> "no" [] t = "" -> default [] OTHER -> "bad"
MinuteOf(t) == CASE t = "2026-02-03" -> -720 [] t = "2026-02-03T12:00Z" -> 0 [] t = "2026-02-03T11:00:00.000Z" -> -60 [] t = "2026-02-03T12:50:00+02:00" -> -70 [] t = "2026-02-04" -> 720 [] OTHER -> 9999
Understood(q) == TrainOf(q.train) # -2 /\ DateOf(q.date) # "bad" /\ StationOf(q.station) # "bad" /\ FlagOf(q.general, "no") # "bad"
Query(q) == [train |-> TrainOf(q.train), date |-> DateOf(q.date), station |-> StationOf(q.station), general |-> FlagOf(q.general, "no") = "yes"]
Ask(q, f) == /\ out' = IF ~Understood(q) THEN [kind |-> "told", status |-> 400]
                       ELSE IF f # "-" THEN [kind |-> "error"]
                       ELSE [kind |-> "told", status |-> 200, messages |-> Seen(kept, Query(q))]
             /\ UNCHANGED <<now, kept>>
AskSince(q, t, a, f) == /\ out' = IF ~Understood(q) \/ MinuteOf(t) = 9999 \/ FlagOf(a, "yes") = "bad" THEN [kind |-> "told", status |-> 400]
                                  ELSE IF f # "-" THEN [kind |-> "error"]
                                  ELSE [kind |-> "told", status |-> 200, messages |-> Since(kept, Query(q), MinuteOf(t), FlagOf(a, "yes") = "yes")]
                        /\ UNCHANGED <<now, kept>>

\* ------------------------------------------------------------ what is handed in
\* a body that is as agreed goes to the queue as it came, another one to the dead letters with what is wrong with it
Upload(u) == /\ out' = IF u.body = "empty" THEN [kind |-> "handed", status |-> 400, queue |-> 0, letters |-> 0]
                       ELSE IF u.down THEN [kind |-> "error"]
                       ELSE IF u.body = "valid" THEN [kind |-> "handed", status |-> 200, queue |-> 1, letters |-> 0]
                       ELSE [kind |-> "handed", status |-> 200, queue |-> 0, letters |-> 1]
             /\ UNCHANGED <<now, kept>>
\* dead letters are put aside, each in a file of its own under its kind and the day; an upload is tried twice
Bury(l) == /\ out' = [kind |-> "buried", tries |-> IF l.fails = 0 THEN Len(l.letters) ELSE IF l.fails = 1 THEN Len(l.letters) + 1 ELSE 2,
                      files |-> IF l.fails > 1 THEN {} ELSE {[folder |-> l.letters[i].type \o "/2026-02-03", errors |-> l.letters[i].errors, message |-> l.letters[i].message] : i \in 1..Len(l.letters)}]
           /\ UNCHANGED <<now, kept>>

Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a
         /\ CASE a.op = "process" -> Process(a.batch, a.fault) [] a.op = "wait" -> Wait(a.minutes) [] a.op = "ask" -> Ask(a.q, a.fault)
              [] a.op = "since" -> AskSince(a.q, a.date, a.active, a.fault) [] a.op = "upload" -> Upload(a.u) [] OTHER -> Bury(a.l)
Actions == {[op |-> "process", batch |-> b, fault |-> f] : b \in Batches, f \in Faults} \cup {[op |-> "wait", minutes |-> d] : d \in Waits}
           \cup {[op |-> "ask", q |-> q, fault |-> f] : q \in Queries, f \in Faults \cap {"-", "connect", "query"}}
           \cup {[op |-> "since", q |-> x.q, date |-> x.date, active |-> x.active, fault |-> f] : x \in Afters, f \in Faults \cap {"-", "connect", "query"}}
           \cup {[op |-> "upload", u |-> u] : u \in Uploads} \cup {[op |-> "bury", l |-> l] : l \in Letters}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
OneWord == \A r, s \in Shown(kept) : r.m.id = s.m.id => r = s
Gone == \A r \in Range(kept) : r.gone => r \notin Shown(kept)
NothingStale == out.kind = "processed" => \A p \in out.active : p.from <= now /\ now < p.to
\* nothing that failed is lost: it can be tried again, and lies among the dead letters
Reported == out.kind = "processed" => Cardinality({i \in 1..Len(out.failed) : out.failed[i]}) >= Len(out.letters)
Safe == OneWord /\ Gone /\ NothingStale /\ Reported
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
