----------------------------- MODULE PortTimesMC ------------------------------
EXTENDS PortTimes
A == [imo |-> 9074729, mmsi |-> 230000001]
B == [imo |-> 9706308, mmsi |-> 230000002]
C == [imo |-> 1000007, mmsi |-> 230000003]
Call(id, s, port, at, eta, etd, ata, atd) == [id |-> id, mmsi |-> s.mmsi, imo |-> s.imo, port |-> port, at |-> at, eta |-> eta, etd |-> etd, ata |-> ata, atd |-> atd, name |-> "Some Ship", upper |-> "SOME SHIP"]
Vessel(mmsi, imo, at, name) == [mmsi |-> mmsi, imo |-> imo, at |-> at, name |-> name]
Seen(mmsi, at, sog, nav) == [mmsi |-> mmsi, at |-> at, sog |-> sog, nav |-> nav]
None == [calls |-> {}, vessels |-> {}, seen |-> {}]
World == [calls |-> {Call(11, A, "FIHEL", -60, {120}, {1500}, {}, {}), Call(12, A, "FIHEL", -30, {3000}, {4000}, {}, {}), Call(13, A, "FIHKO", -50, {200}, {900}, {-30}, {}),
                     Call(14, B, "FIHEL", -70, {-10}, {600}, {-15}, {}), Call(15, B, "FIHEL", -71, {-2000}, {-1800}, {-2100}, {-1700}), Call(16, B, "FIKTK", -72, {0}, {300}, {}, {})},
          vessels |-> {Vessel(A.mmsi, A.imo, -5, "Alfa"), Vessel(B.mmsi, B.imo, -100, "Bravo"), Vessel(230000009, B.imo, -200, "Old name")},
          seen |-> {}]
\* ship C is known only by its port calls; one ship of the register has lost its mmsi
Thin == [calls |-> {Call(21, C, "FIHEL", -60, {120}, {}, {}, {}), Call(22, [imo |-> C.imo, mmsi |-> 230000004], "FIHEL", -90, {500}, {}, {}, {}), Call(23, A, "FIHEL", -20, {100}, {}, {}, {})},
         vessels |-> {Vessel(A.mmsi, A.imo, -5, "Alfa")}, seen |-> {}]
\* registers of two lines for a ship, calls that know only the MMSI or only the IMO: the newest line counts
Q(mmsi, imo) == [mmsi |-> mmsi, imo |-> imo]
Twice == [calls |-> {Call(31, Q(230000031, 0), "FIHEL", -60, {50}, {}, {}, {}), Call(32, Q(230000032, 0), "FIHEL", -60, {40}, {}, {}, {}), Call(33, Q(0, 9074731), "FIHEL", -60, {60}, {}, {}, {}), Call(34, Q(0, 9074732), "FIHEL", -60, {55}, {}, {}, {}),
                     Call(35, Q(230000041, 0), "FIHEL", -60, {50}, {}, {}, {}), Call(36, Q(230000042, 0), "FIHEL", -60, {40}, {}, {}, {}), Call(37, Q(0, 9074741), "FIHEL", -60, {60}, {}, {}, {}), Call(38, Q(0, 9074742), "FIHEL", -60, {55}, {}, {}, {}),
                     Call(41, Q(230000041, 9074740), "FIHKO", -10, {50}, {}, {}, {}), Call(42, Q(230000042, 9074740), "FIHKO", -90, {50}, {}, {}, {}),
                     Call(43, Q(230000043, 9074741), "FIHKO", -10, {50}, {}, {}, {}), Call(44, Q(230000043, 9074742), "FIHKO", -90, {50}, {}, {}, {})},
          vessels |-> {Vessel(230000031, 9074730, -10, "New"), Vessel(230000032, 9074730, -99, "Old"), Vessel(230000033, 9074731, -10, "New"), Vessel(230000033, 9074732, -99, "Old")}, seen |-> {}]
\* the newest line does not know the MMSI
Blank == [calls |-> {Call(51, Q(0, 9074751), "FIHEL", -10, {50}, {}, {}, {}), Call(52, Q(230000051, 9074751), "FIHEL", -90, {50}, {}, {}, {})}, vessels |-> {Vessel(0, 9074750, -1, "New"), Vessel(230000050, 9074750, -9, "Old")}, seen |-> {}]
\* calls that come about at this very moment
Just == [calls |-> {Call(50 + k[2], A, "FIHEL", -60, IF k[1] = "ETA" THEN {k[3]} ELSE {}, IF k[1] = "ETD" THEN {k[3]} ELSE {}, IF k[1] = "ATA" THEN {k[3]} ELSE {}, IF k[1] = "ATD" THEN {k[3]} ELSE {}) :
                      k \in {<<"ETA", 1, 0>>, <<"ETD", 2, 0>>, <<"ATA", 3, 0>>, <<"ATD", 4, 0>>, <<"ETA", 5, 5000>>, <<"ETD", 6, 5000>>, <<"ATA", 7, -5000>>, <<"ATD", 8, -5000>>}}, vessels |-> {}, seen |-> {}]
SeenAs(S) == [World EXCEPT !.seen = S]
I(w0, r0, p0) == [w |-> w0, rows |-> r0, pilotages |-> p0]

M0 == [flaw |-> "none", type |-> "ETA", et |-> 100, rt |-> -10, source |-> Portnet, mmsi |-> A.mmsi, imo |-> A.imo, port |-> "FIHEL", area |-> "", from |-> "", pc |-> 0, sid |-> "",
       conf |-> "none", lo |-> 0, hi |-> 0, fault |-> FALSE]
Flaws == {"not json", "no type", "unknown type", "no time", "bad time", "no record time", "bad record time", "no source", "no ship", "no location", "no port"}
Judged == {[M0 EXCEPT !.flaw = f] : f \in Flaws} \cup {[M0 EXCEPT !.mmsi = 0, !.imo = 0]}
  \cup {[M0 EXCEPT !.port = p, !.from = f, !.area = a, !.pc = 11] : p \in {"FIHEL", "FIHE", "FIHELS"}, f \in {"", "FIHKO", "FIHKOO"}, a \in {"", "ABCDEF", "ABCDEFG"}}
  \cup {[M0 EXCEPT !.type = t, !.source = s, !.pc = 11] : t \in Types, s \in {Pred, Vts, Awake, Portnet, "Port HKO"}}
  \cup {[M0 EXCEPT !.source = Vts, !.type = t, !.mmsi = m] : t \in {"ETA", "ETB", "ETD"}, m \in {0, A.mmsi}}
  \cup {[M0 EXCEPT !.source = Awake, !.conf = "numbers", !.lo = l, !.hi = h, !.sid = "s"] : l \in {-9005, -600, 10, -20, 0}, h \in {3002, -10, 900, 20, 0}}
  \cup {[M0 EXCEPT !.source = Control, !.type = t, !.pc = 11] : t \in {"ETA", "ETB"}}
  \cup {[M0 EXCEPT !.conf = c, !.lo = -600, !.hi = 600] : c \in {"text", "lower only", "upper only", "lower text", "upper text"}}
JudgedBatches == {<<m>> : m \in Judged}
Sights == {SeenAs(S) : S \in {{}, {Seen(A.mmsi, -10, 100, 0)}, {Seen(A.mmsi, -10, 19, 0)}, {Seen(A.mmsi, -10, 20, 0)}, {Seen(A.mmsi, -59, 0, 0)}, {Seen(A.mmsi, -61, 0, 1)}, {Seen(B.mmsi, -10, 0, 1)},
                             {Seen(A.mmsi, -10, 100, 0), Seen(A.mmsi, -20, 0, 5)}, {Seen(A.mmsi, -10, 0, 0), Seen(A.mmsi, -5, 50, 8)}} \cup {{Seen(A.mmsi, -1, 50, k)} : k \in {1, 2, 5, 6, 7}}}
JudgeInits == {I(x, {}, {}) : x \in Sights}

\* the port call of a message
Found == {<<[M0 EXCEPT !.type = t, !.source = s, !.et = e, !.port = p, !.mmsi = k.mmsi, !.imo = k.imo]>> :
            t \in {"ETA", "ETB", "ETD", "ATA", "ATD", "ATB"}, s \in {Portnet, Vts, Pred, Awake}, e \in {-1000, 100, 1900}, p \in {"FIHEL", "FIKTK", "FIRAU"},
            k \in {A, B, [mmsi |-> 0, imo |-> A.imo], [mmsi |-> A.mmsi, imo |-> 0], [mmsi |-> 0, imo |-> B.imo], [mmsi |-> 230000009, imo |-> 0]}}
     \cup {<<[M0 EXCEPT !.type = "ETA", !.source = s, !.port = "FIHEL", !.mmsi = k.mmsi, !.imo = k.imo, !.pc = c]>> : s \in {Awake, Pred}, c \in {0, 77},
            k \in {C, [mmsi |-> 0, imo |-> C.imo], [mmsi |-> C.mmsi, imo |-> 0], [mmsi |-> 230000004, imo |-> 0], [mmsi |-> 230000008, imo |-> 0], [mmsi |-> 0, imo |-> 9999999], [mmsi |-> -1, imo |-> A.imo], Q(0, 9074730), Q(230000033, 0), Q(0, 9074740), Q(230000043, 0), Q(230000033, 9074730)}}
     \cup {<<[M0 EXCEPT !.mmsi = 0, !.imo = i, !.pc = 77]>> : i \in {9074750, 9074751}}
     \cup {<<[M0 EXCEPT !.type = t, !.et = e]>> : t \in {"ETA", "ETD", "ATA", "ATD"}, e \in {-4900, 10, 4900}}
FindInits == {I(World, {}, {}), I(Thin, {}, {}), I(Twice, {}, {}), I(Blank, {}, {}), I(Just, {}, {})}

\* histories of messages
R(t, s, ship, e, r, p, c) == [type |-> t, et |-> e, rt |-> r, source |-> s, mmsi |-> ship.mmsi, imo |-> ship.imo, port |-> p, area |-> "", from |-> "", pc |-> c, sid |-> "", lo |-> 0, hi |-> 0]
Msg(t, s, ship, e, r, p, c) == [M0 EXCEPT !.type = t, !.source = s, !.mmsi = ship.mmsi, !.imo = ship.imo, !.et = e, !.rt = r, !.port = p, !.pc = c]
P1 == Msg("ETA", Portnet, A, 100, -10, "FIHEL", 11)
P2 == Msg("ETA", Portnet, A, 130, -5, "FIHEL", 11)
P3 == Msg("ETA", Portnet, A, 130, -4, "FIHKO", 11)
P4 == Msg("ETD", Portnet, A, 900, -3, "FIHKO", 11)
K1 == Msg("ETA", Awake, A, 110, -8, "FIHEL", 11)
V1 == Msg("ETA", Vts, A, 120, -9, "FIHEL", 11)
R1 == Msg("ETA", Pred, A, 110, -7, "FIHEL", 0)
R2 == Msg("ETA", Pred, A, 110, -7, "FIKTK", 0)
L1 == [Msg("RPS", Pilot, B, 20, -2, "FIHEL", 14) EXCEPT !.from = "FIHKO", !.sid = "7"]
P5 == Msg("ETA", Portnet, B, 5, -6, "FIKTK", 16)
F(m) == [m EXCEPT !.fault = TRUE]
J == [M0 EXCEPT !.flaw = "not json"]
HistoryBatches == {<<P1>>, <<P1, P2>>, <<P3>>, <<F(P3)>>, <<P4, F(P1), K1>>, <<V1, J, R1>>, <<R1, R1>>, <<R2, L1>>, <<J, K1>>, <<P2, P1>>, <<P1, P3, P2>>, <<P5, P1>>, <<>>}
Ask(by, v, ok) == [op |-> "ask", by |-> by, v |-> v, id |-> 0, ok |-> ok, typed |-> v]
AskId(by, i, ok) == [op |-> "ask", by |-> by, v |-> "", id |-> i, ok |-> ok, typed |-> ""]
Typed(v, t) == [op |-> "ask", by |-> "port", v |-> v, id |-> 0, ok |-> TRUE, typed |-> t]
Few == {Ask("port", "FIHEL", TRUE), Ask("port", "FIHKO", TRUE), AskId("imo", A.imo, TRUE), Ask("source", Portnet, TRUE)}
HistoryInits == {I(World, {R("ATA", Portnet, B, -7 * Day, -10, "FIHEL", 15), R("ATD", Portnet, B, -7 * Day - 1, -10, "FIHEL", 15)}, {-7 * Day - 1, -7 * Day, -100})}
HistoryTicks == {55, 11 * Hour, 7 * Day}

\* what is told, over many states of the table
NoMmsi == [imo |-> A.imo, mmsi |-> 0]
ServePool == {R("ETA", Portnet, A, 100, -30, "FIHEL", 11), R("ETA", Portnet, A, 90, -20, "FIHEL", 11), R("ETA", Portnet, A, 95, -10, "FIHEL", 12), R("ETA", Portnet, A, 14 * Day, -10, "FIHEL", 11), R("ETA", Portnet, A, 14 * Day - 1, -11, "FIHEL", 11),
              R("ETA", Awake, A, 14 * Day, -10, "FIHEL", 11), R("ATA", Portnet, A, -12 * Hour, -10, "FIHEL", 11), R("ATA", "Port HKO", A, -12 * Hour + 1, -10, "FIHEL", 11),
              R("ETA", Pred, A, 80, -40, "FIHEL", 0), R("ETA", Pred, A, 80, -41, "FIHEL", 11), R("ETA", Pred, A, 80, -40, "FIHEL", 11), R("ETA", Pred, A, 80, -40, "FIHEL", 12), R("ETA", Pred, B, 80, -40, "FIHEL", 0),
              R("ETA", Portnet, NoMmsi, 99, -15, "FIHEL", 11), R("ETA", Portnet, B, 99, -15, "FIHKO", 14), R("ETA", Portnet, A, 97, -5, "FIHKO", 11), R("ETD", Portnet, A, 98, -4, "FIHEL", 11),
              [R("RPS", Pilot, B, 20, -2, "FIHKO", 14) EXCEPT !.from = "FIHEL", !.sid = "7"], [R("RPS", Portnet, B, 20, -2, "FIHKO", 14) EXCEPT !.from = "FIHEL"],
              [R("ETA", Control, A, 70, -2, "FIHEL", 11) EXCEPT !.area = "AREA1", !.lo = -61, !.hi = 5]}
Sub(S, k) == {T \in SUBSET S : Cardinality(T) <= k}
RECURSIVE UpTo(_, _)
UpTo(S, k) == IF k = 0 THEN {{}} ELSE UpTo(S, k - 1) \cup {T \cup {x} : T \in UpTo(S, k - 1), x \in S}
ServeInits == {I(World, T, {}) : T \in UpTo(ServePool, 2)}
ServeInits3 == {I(World, T, {}) : T \in UpTo(ServePool, 3)}
ServeQueries == {Ask("port", "FIHEL", TRUE), Ask("port", "FIHKO", TRUE), AskId("mmsi", A.mmsi, TRUE), AskId("mmsi", B.mmsi, TRUE), AskId("imo", A.imo, TRUE), AskId("imo", B.imo, TRUE), Ask("source", Portnet, TRUE), Ask("source", Pilot, TRUE)}
Also(m, i) == [op |-> "ask", by |-> "imo", v |-> "", id |-> i, ok |-> TRUE, typed |-> "", also |-> m]
OddQueries == {Also(A.mmsi, B.imo), Also(B.mmsi, A.imo), Ask("port", "FIXXX", TRUE), Typed("FIHEL", "fihel"), Typed("FIHKO", "FihKo"), Ask("port", "SEHEL", FALSE), Ask("port", "FIHELX", FALSE), Ask("port", "FIHE", FALSE), AskId("mmsi", 99999999, FALSE), AskId("mmsi", 230000005, TRUE), AskId("imo", 9074720, FALSE), AskId("imo", 100, FALSE), Ask("source", "none", TRUE)}

\* estimates brought together
Mg(s, e, r) == R("ETA", s, A, e, r, "FIHEL", 11)
VtsRows == {Mg(Vts, 100, -59), Mg(Vts, 100, -60), Mg(Vts, 159, -10), Mg(Vts, 160, -10), Mg(Vts, 100, -10), Mg(Vts, 60, -61)}
AwakeRows == {Mg(Awake, 100, -90), Mg(Awake, 104, -9), Mg(Awake, 60, -3), Mg(Awake, 170, -4)}
PredRows == {Mg(Pred, 50, -5), R("ETB", Pred, A, 50, -5, "FIHEL", 11), R("ETA", Pred, A, 50, -5, "FIHEL", 12), R("ETA", Pred, A, 50, -5, "FIHEL", 0)}
OtherRows == {Mg(Portnet, 101, -5), Mg(Control, 99, -300), R("ETB", Awake, A, 105, -3, "FIHEL", 11), R("ETB", Vts, A, 111, -3, "FIHEL", 11), R("ETA", Awake, A, 3000, -3, "FIHEL", 12), Mg("Port HKO", 45, -5)}
MergeInits == {I(World, T, {}) : T \in {a \cup b \cup c \cup d : a \in UpTo(VtsRows, 1), b \in UpTo(AwakeRows, 1), c \in UpTo(PredRows, 1), d \in UpTo(OtherRows, 1)}}
MergeInits2 == {I(World, T, {}) : T \in {a \cup b \cup c \cup d : a \in UpTo(VtsRows, 1), b \in UpTo(AwakeRows, 1), c \in UpTo(PredRows, 2), d \in UpTo(OtherRows, 2)}}
\* predictions told both with a port call and without
Dbl(s, ship, e, p, c, t) == R(t, s, ship, e, -5, p, c)
Half == {Dbl(Pred, A, 50, "FIHEL", 0, "ETA"), Dbl(Pred, A, 50, "FIHKO", 0, "ETA"), Dbl(Pred, B, 50, "FIHEL", 0, "ETB")}
Doubles == {Dbl(Pred, A, 50, "FIHEL", 11, "ETA"), Dbl(Pred, A, 50, "FIHKO", 13, "ETA"), Dbl(Pred, B, 50, "FIHEL", 14, "ETB"), Dbl(Pred, B, 50, "FIHEL", 14, "ETA"), Dbl(Pred, A, 51, "FIHEL", 11, "ETA"),
            Dbl(Awake, A, 50, "FIHEL", 11, "ETA"), Dbl(Portnet, A, 50, "FIHEL", 11, "ETA"), Dbl(Pred, A, 50, "FIHEL", 11, "ETB")}
DoubleInits == {I(World, a \cup b, {}) : a \in UpTo(Half, 2), b \in UpTo(Doubles, 2)}
DoubleQueries == {Ask("port", "FIHEL", TRUE), AskId("imo", A.imo, TRUE), Ask("source", Pred, TRUE), [op |-> "list", port |-> "FIHEL", h |-> 48]}
MergeQueries == {Ask("port", "FIHEL", TRUE), [op |-> "list", port |-> "FIHEL", h |-> 48]}

\* lists
ListPool == {R("ETA", Portnet, A, 100, -30, "FIHEL", 11), R("ATA", Portnet, A, -5, -3, "FIHEL", 11), R("ATA", Portnet, A, -5, -3, "FIHKO", 13), R("ATD", Portnet, A, -4, -3, "FIHEL", 11), R("ETA", Portnet, A, -59, -10, "FIHEL", 11), R("ETA", Portnet, B, -60, -10, "FIHEL", 14),
             R("ATD", Portnet, B, -6 * Hour, -10, "FIHEL", 14), R("ATD", Portnet, B, -6 * Hour + 1, -10, "FIHEL", 15), R("ETD", Portnet, C, 24 * Hour, -10, "FIHEL", 21), R("ETD", Portnet, C, 24 * Hour - 1, -10, "FIHEL", 21),
             [R("RPS", Pilot, B, 20, -2, "FIHKO", 14) EXCEPT !.from = "FIHEL"], [R("RPS", "Port HKO", B, 20, -2, "FIHKO", 14) EXCEPT !.from = "FIHEL"], R("ETA", Pred, C, 20, -2, "FIHEL", 0), R("ETA", Vts, A, 90, -2, "FIHEL", 11), R("ETA", Vts, A, 95, -1, "FIHKO", 11), R("ETB", Vts, A, 90, -1, "FIHEL", 11), R("ETA", Vts, B, 90, -1, "FIHEL", 11), R("ETA", Vts, A, 96, -1, "FIHEL", 12), R("ETD", Portnet, A, 900, -8, "FIHEL", 11)}
ListWorlds == {World, [Thin EXCEPT !.calls = {Call(21, C, "FIHEL", -60, {120}, {}, {}, {})}, !.vessels = {Vessel(B.mmsi, B.imo, -5, "Bravo"), Vessel(B.mmsi, B.imo, -9, "Bravo the old")}]}
ListInits == {I([x EXCEPT !.seen = {}], T, {}) : x \in ListWorlds, T \in UpTo(ListPool, 2)}
ListQueries == {[op |-> "list", port |-> p, h |-> h] : p \in {"FIHEL", "FIHKO"}, h \in {24, 25}}
\* the page
Page(auth, port, typed, ok, h) == [op |-> "page", auth |-> auth, port |-> port, typed |-> typed, ok |-> ok, h |-> h]
PageQueries == {Page("right", "FIHEL", "FIHEL", TRUE, h) : h \in {0, 24, 96, 97}} \cup {Page("right", "FIHKO", "fiHko", TRUE, 0), Page("none", "FIHEL", "FIHEL", TRUE, 0), Page("wrong", "FIHEL", "FIHEL", TRUE, 24),
                 Page("none", "", "", FALSE, 0), Page("wrong", "", "FIHE", FALSE, 0), Page("right", "", "", FALSE, 0), Page("right", "", "FIHE", FALSE, 0), Page("right", "", "SEHEL", FALSE, 0), Page("right", "", "FIHELX", FALSE, 24)}
PagePool == {R("ETA", Portnet, A, 100, -30, "FIHEL", 11), R("ETD", Portnet, C, 96 * Hour, -10, "FIHEL", 21), R("ETD", Portnet, C, 96 * Hour - 1, -10, "FIHEL", 21), R("ETD", Portnet, B, 4 * Hour, -10, "FIHEL", 14), R("ETA", Vts, B, 60, -10, "FIHKO", 14), R("ATA", Portnet, A, -100, -90, "FIHEL", 12), R("ETA", Pred, A, 101, -90, "FIHKO", 0)}
PageWorld == [World EXCEPT !.vessels = {Vessel(A.mmsi, A.imo, -5, "A</script><script>throw 1</script>"), Vessel(B.mmsi, B.imo, -5, "B'\"<!--<script>")}]
PageInits == {I(PageWorld, T, {}) : T \in UpTo(PagePool, 2)}
EtaPool == {R("ETA", Portnet, A, 100, -30, "FIHEL", 11), R("ETA", Portnet, A, 84 * Hour, -20, "FIHEL", 11), R("ETA", Portnet, A, 84 * Hour - 1, -20, "FIHEL", 12), R("ETA", Portnet, A, 90, -20, "FIHKO", 13), R("ETD", Portnet, A, 80, -1, "FIHEL", 12),
            R("ETA", Awake, A, 14, -20, "FIHEL", 11), R("ETB", Awake, A, 14, -20, "FIHEL", 11), R("ETA", Awake, A, 15, -19, "FIHEL", 11), R("ETA", Awake, A, 14, -19, "FIHEL", 12), R("ETA", Portnet, B, 14, -19, "FIHEL", 14), R("ETA", Portnet, B, -30, -19, "FIKTK", 16), R("ETA", Awake, B, 10, -19, "FIKTK", 16), R("ETA", Portnet, NoMmsi, 60, -30, "FIHEL", 12)}
EtaWorlds == {World, [World EXCEPT !.calls = {IF c.id \in {11, 16} THEN [c EXCEPT !.at = -3 * Day] ELSE c : c \in World.calls}], [World EXCEPT !.calls = {IF c.id = 12 THEN [c EXCEPT !.at = -3 * Day + 1] ELSE c : c \in World.calls}]}
CloseBy == {R("ETA", Awake, A, 14, -20, "FIHEL", 11), R("ETA", Awake, A, 16, -18, "FIHEL", 11), R("ETB", Awake, A, 14, -17, "FIHEL", 11), R("ETA", Pred, A, 14, -16, "FIHEL", 11), R("ETA", Awake, A, 20, -15, "FIHEL", 12), R("ETA", Awake, A, 20, -14, "FIHKO", 11),
            R("ETA", Portnet, A, 91, -1, "FIHKO", 11), R("ETA", Awake, B, 14, -13, "FIHEL", 14), R("ETD", Portnet, A, 80, -1, "FIHEL", 11), R("ETA", Vts, A, 80, -1, "FIHEL", 11), R("ETA", Awake, B, 14, -13, "FIHEL", 11)}
EtaInits == {I(x, T, {}) : x \in EtaWorlds, T \in UpTo(EtaPool, 2)} \cup {I(World, T \cup {R("ETA", Portnet, A, 100, -30, "FIHEL", 11)}, {}) : T \in UpTo(CloseBy, 2)}
EtaInits3 == {I(x, T, {}) : x \in {World}, T \in UpTo(EtaPool, 3)}
EtaQueries == {[op |-> "etaships", ports |-> p] : p \in {{"FIHEL"}, {"FIHEL", "FIHKO", "FIKTK"}, {"FIRAU"}}}
NoBatches == {}
NoQueries == {}
NoTicks == {}
AllQueries == ServeQueries \cup OddQueries
=============================================================================
