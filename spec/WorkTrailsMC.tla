---------------------------- MODULE WorkTrailsMC -----------------------------
EXTENDS WorkTrails
M(name, task, ignore) == [name |-> name, task |-> task, ignore |-> ignore]
None == {}
Usual == {M("plough", "PLOUGHING", FALSE), M("blade", "PLOUGHING", FALSE), M("salt", "SALTING", FALSE), M("brush", "BRUSHING", TRUE), M("odd", "BOGUS", FALSE)}
Normal == {[known |-> Usual, sourced |-> TRUE]}
AllStarts == {[known |-> Usual, sourced |-> TRUE], [known |-> Usual, sourced |-> FALSE], [known |-> {}, sourced |-> TRUE]}
P == <<"plough">>
S == <<"salt">>
PS == <<"plough", "salt">>
E(dev, at, p, ch, h) == [dev |-> dev, at |-> at, p |-> p, ch |-> ch, h |-> h]
G(es, wait, fault) == [events |-> es, wait |-> wait, fault |-> fault, names |-> <<"plough", "salt">>]
OK(es) == G(es, 200, "-")
\* two events: limits of time, distance and speed, with the same work and another
Gaps == {0 - 1, 1, 2, 3, 7, 9, 10, 23, 24, 30, 36, 37, 60, 89, 92, 93, 95, 144, 150, 300, 305, 306, 310}
Ways2 == {0, 1, 49, 51, 52, 150, 199, 201, 205, 515, 519, 521, 600, 2000}
Two(x, d, c1, c2) == G(<<E(1, 0, 1000, c1, 10), E(1, x, 1000 + d, c2, 20)>>, 120 + 310, "-")
\* exactly at a limit of speed the way it is counted decides: not tried
Even(x, d) == \E l \in {800, 200, 50} : d * 36 = l * x
Pairs == {Two(q[1], q[2], P, q[3]) : q \in {y \in Gaps \X Ways2 \X {P, S} : ~Even(Abs(y[1]), y[2])}}
\* what was told in one run, and the next
Ones == {OK(<<E(1, 0, 1000, c, 10)>>) : c \in {P, S}}
Nexts == {G(<<E(1, x, 1000 + d, c, 20)>>, w, "-") : x \in {0 - 200, 0 - 199, 0 - 140, 0 - 60, 0, 60, 105, 106}, d \in {0, 30, 150, 519, 521}, c \in {P, S, PS}, w \in {230}}
Joins == Ones \cup {g \in Nexts : ~Even(Abs(200 + g.events[1].at), Abs(g.events[1].p - 1000))}
JoinsQ == Ones \cup {g \in Joins : g.wait = 230 /\ g.events[1].at \in {0 - 199, 0, 105, 106} /\ g.events[1].p \in {1000, 1030, 1519, 1521} /\ (g.events[1].ch # PS \/ g.events[1].at = 0)}
\* a way that goes on and on
Chain == {OK(<<E(1, x, 1000, c, 10)>>) : x \in {0, 100}, c \in {P, S}} \cup {OK(<<E(1, x, 1030, c, 20)>>) : x \in {50, 120}, c \in {P, PS}} \cup {OK(<<E(1, 80, 1020, <<"salt", "plough">>, 30)>>), OK(<<>>)}
\* three and more events, works coming and going
Works1 == {P, S, PS, <<"salt", "plough">>}
Odd == {<<"brush">>, <<"plough", "brush">>, <<" plough ">>, <<"plough", "blade">>, <<>>, <<"nothing">>, <<"blade">>, <<"odd">>}
Triples == {OK(<<E(1, 0, 1000, a, 10), E(1, 10, 1040, b, 20), E(1, 20, 1080, c, 30)>>) : a \in Works1, b \in Works1, c \in Works1}
Lines == {OK(<<E(1, 0, 1000, P, 10), E(1, 10, x, P, 20), E(1, 20, y, P, 30), E(1, 30, z, P, 40)>>) : x \in {1000, 1040}, y \in {1000, 1040, 1080}, z \in {1080, 1000, 3000}}
Shuffled == {OK(<<E(1, 20, 1080, P, 30), E(1, 0, 1000, P, 10), E(1, 10, 1040, c, 20)>>) : c \in {P, S}}
Odds == {OK(<<E(1, 0, 1000, a, 10), E(1, 10, 1040, P, 20), E(1, 20, 1080, b, 30)>>) : a \in Odd \ {<<"plough", "brush">>, <<" plough ">>, <<"plough", "blade">>, <<"blade">>}, b \in Odd \ {<<"plough", "brush">>, <<" plough ">>, <<"plough", "blade">>, <<"blade">>}}
Alone == {OK(<<E(1, 0, 1000, a, 10), E(1, 10, 1040, a, 20)>>) : a \in Odd \cup Works1}
Many == Triples \cup Lines \cup Shuffled \cup Odds \cup Alone
\* several machines
Both == {G(<<E(1, 0, 1000, a, 10), E(2, 5, 1010, b, 20), E(1, 10, 1040, a, 30), E(2, 15, 1050, b, 40)>>, 150, f) : a \in {P, <<"odd">>}, b \in {P, S}, f \in {"-", "trail", "machine"}}
\* windows: runs that see the same again, late words, nothing new, failures in between
Drive == <<E(1, 0, 1000, P, 10), E(1, 30, 1200, P, 20), E(1, 60, 1400, P, 30), E(1, 90, 1400, S, 40)>>
Windows == {G(es, w, "-") : es \in {<<>>, Drive, <<E(1, 0 - 60, 900, P, 10)>>, <<E(1, 0 - 300, 900, S, 20)>>}, w \in {0, 60, 119, 120, 140, 181, 450, 541}}
Struck == {G(es, 180, f) : es \in {<<>>, <<E(1, 0, 1000, P, 10), E(1, 10, 1040, S, 20)>>, <<E(1, 20, 1040, S, 30), E(2, 0, 0, P, 40)>>}, f \in {"-", "secret", "connect", "devices", "events", "machine", "trail", "task", "mark", "stamp", "checked"}}
Named == {[OK(<<E(1, 0, 1000, c, 10)>>) EXCEPT !.names = ns] : c \in {P, <<"new">>, <<"brush">>}, ns \in {<<>>, <<"new">>, <<" plough ", "brush">>, <<"new", "new", "other">>}}
\* what channels mean is changed between runs
Changes == {M("plough", "SNOW", FALSE), M("plough", "PLOUGHING", TRUE), M("salt", "PLOUGHING", FALSE), M("new", "SWEEPING", FALSE)}
Both2 == {TRUE, FALSE}
Told == {OK(<<E(1, 0, 1000, c, 10), E(1, 10, 1040, <<"new">>, 20)>>) : c \in {P, PS}} \cup {[OK(<<E(1, 0, 1020, <<"new">>, 10)>>) EXCEPT !.names = <<"new", "plough">>]}
=============================================================================
