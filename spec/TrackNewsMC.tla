---------------------------- MODULE TrackNewsMC ----------------------------
EXTENDS TrackNews
R(att, train, date, at, minute, type) == [att |-> att, train |-> train, date |-> date, at |-> at, minute |-> minute, type |-> type]
Table == <<R(11, 274, "2026-02-03", "HKI", 0, 1), R(12, 274, "2026-02-03", "PSL", 5, 0), R(13, 274, "2026-02-03", "PSL", 5, 1), R(14, 274, "2026-02-03", "TKL", 5, 0),
           R(15, 274, "2026-02-03", "TKL", 6, 0), R(21, 274, "2026-02-04", "HKI", 0, 1), R(31, 275, "2026-02-03", "HKI", 0, 1),
           R(41, 274, "2026-02-03", "HKI", 0, 1)>>
Turns == {{11}, {41}, {11, 41}}
None == {}
NoFault == {"-"}
C(at, arr, dep, k1, t1, k2, t2) == [at |-> at, arr |-> arr, dep |-> dep, arrKnown |-> k1, arrTrack |-> t1, depKnown |-> k2, depTrack |-> t2, boards |-> TRUE]
M(id, calls) == [kind |-> "sm", id |-> id, train |-> 274, date |-> "2026-02-03", bus |-> FALSE, calls |-> calls]
Hki(k, t) == C("HKI", -1, 0, TRUE, TRUE, k, t)
Psl(k1, t1, k2, t2) == C("PSL", 300, 300, k1, t1, k2, t2)
B == BOOLEAN
\* what one message can say
HkiOnes == {<<M("m", <<Hki(k, t)>>)>> : k \in B, t \in B}
PslOnes == {<<M("m", <<Hki(TRUE, TRUE), Psl(k1, t1, k2, t2)>>)>> : k1 \in B, t1 \in B, k2 \in B, t2 \in B}
\* times at and around the minute, places, trains, dates, calls without people
Times == {<<M("m", <<C("TKL", s, -1, FALSE, TRUE, TRUE, TRUE)>>)>> : s \in {0, 299, 300, 330, 359, 360, 419, 420}}
Places == {<<M("m", <<C(p, 300, 300, FALSE, TRUE, TRUE, FALSE)>>)>> : p \in {"HKI", "PSL", "TKL", "OL"}}
Trains == {<<[M("m", <<Hki(FALSE, TRUE)>>) EXCEPT !.train = t, !.date = d, !.bus = b]>> : t \in {4, 274, 275, 2741, 27400}, d \in {"2026-02-03", "2026-02-04"}, b \in B}
Calls == {<<M("m", <<[Hki(FALSE, FALSE) EXCEPT !.boards = x]>> \o cs)>> : x \in B, cs \in {<<>>, <<Psl(FALSE, TRUE, TRUE, FALSE)>>, <<[Psl(FALSE, FALSE, FALSE, FALSE) EXCEPT !.boards = FALSE], C("TKL", 300, -1, FALSE, FALSE, TRUE, TRUE)>>, <<Hki(TRUE, TRUE)>>, <<Hki(FALSE, TRUE), C("TKL", -1, -1, FALSE, FALSE, FALSE, FALSE)>>}}
Other == [M("o", <<Hki(FALSE, TRUE)>>) EXCEPT !.train = 275]
Odd == [M("x", <<>>) EXCEPT !.kind = "odd"]
Junk == [M("x", <<>>) EXCEPT !.kind = "junk"]
Tomorrow == [M("t", <<Hki(FALSE, FALSE)>>) EXCEPT !.date = "2026-02-04"]
Many == {<<M("m", <<Hki(FALSE, TRUE)>>), Other>>, <<Odd, Other>>, <<Junk, Other>>, <<Other, Junk, Tomorrow, Odd>>, <<M("m", <<Hki(FALSE, TRUE)>>), Other, Tomorrow>>, <<Odd, Junk>>, <<[Other EXCEPT !.bus = TRUE], M("m", <<Psl(FALSE, FALSE, TRUE, TRUE)>>)>>}
Singles == HkiOnes \cup PslOnes \cup Times \cup Places \cup Trains \cup Calls
\* the words of one place after another
Words1 == HkiOnes \cup {<<M("m", <<Hki(FALSE, FALSE), Psl(TRUE, FALSE, TRUE, TRUE)>>)>>, <<M("m", <<Hki(TRUE, TRUE), Psl(TRUE, TRUE, TRUE, FALSE), Hki(FALSE, TRUE)>>)>>}
Struck == HkiOnes \cup {<<M("m", <<Hki(FALSE, FALSE), Psl(TRUE, FALSE, TRUE, TRUE)>>)>>, <<M("m", <<C("OL", 300, 300, FALSE, FALSE, FALSE, FALSE)>>)>>, <<[M("m", <<Hki(FALSE, FALSE)>>) EXCEPT !.train = 4]>>}
Aging == {<<M("m", <<Hki(FALSE, FALSE)>>)>>, <<M("m", <<Hki(TRUE, TRUE)>>)>>, <<Other>>}
AllFaults == {"-", "connect", "rows", "begin", "once", "twice", "thrice", "history", "commit"}
CleanFaults == {"-", "connect", "commit", "letters"}
Ages == {1, 1439, 1440}
=============================================================================
