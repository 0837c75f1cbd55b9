------------------------------ MODULE VisitsMC ------------------------------
EXTENDS Visits
D(d, h) == 24 * d + h
T(id, port, eta, etd, ata, atd, status) == [id |-> id, port |-> port, eta |-> eta, etd |-> etd, ata |-> ata, atd |-> atd, status |-> status]
E == "Expected to Arrive"
Nothing == {{}}
NoTells == {}
NoFault == {[kind |-> "none", day |-> 0]}
NoFaults == {}
NoAsks == {}
NoWaits == {}
Q == [from |-> No, to |-> No, port |-> "-", name |-> "-", imo |-> "-", status |-> "-", field |-> "-", dir |-> "-"]
A(q) == [what |-> "all", q |-> q, fault |-> "-"]
G(id) == [what |-> "one", id |-> id, fault |-> "-"]
All == {A(Q)}
\* one visit in its versions, and others
Versions == {T("V1", "FIHEL", D(1, 6), No, No, No, E), T("V1", "FIHEL", D(1, 6), D(2, 0), No, No, E), T("V1", "FIHEL", D(3, 6), D(2, 0), D(1, 7), No, "Arrived"), T("V1", "FIKTK", D(1, 6), No, No, No, E),
             T("V1", "FIHEL", D(1, 6), D(2, 0), D(1, 7), D(2, 1), "Departed"), T("V1", "FIHEL", D(1, 6), No, No, No, "Cancelled"), T("V2", "FIHEL", D(1, 6), No, No, No, E)}
VersionsQ == {v \in Versions : v.port = "FIHEL" /\ v.status # "Departed"}
\* each kind of change from each version to each
Every == {T("V1", p, e, d, a, l, s) : p \in {"FIHEL", "FIKTK"}, e \in {D(1, 6), D(1, 7)}, d \in {No, D(2, 0)}, a \in {No, D(1, 7)}, l \in {No, D(2, 1)}, s \in {E, "Departed"}}
Kept == {{[id |-> v.id, port |-> v.port, eta |-> v.eta, etd |-> v.etd, ata |-> v.ata, atd |-> v.atd, status |-> v.status, upd |-> 0 - 30]} : v \in Every}
Edges == {T("V1", "FIHEL", t, No, No, No, E) : t \in {D(0 - 2, 0), D(0 - 2, 23), D(0 - 1, 0), D(0 - 1, 23), D(0, 0), D(0, 23), D(1, 0), D(50, 13), D(98, 0), D(99, 0), D(99, 23), D(100, 0), D(100, 23), D(101, 0)}}
HalfDays == {11, 12, 24}
Three == {T("V1", "FIHEL", D(1, 6), No, No, No, E), T("V2", "FIHEL", D(1, 8), No, No, No, E), T("V2", "FIHEL", D(4, 8), No, No, No, E), T("V3", "FITKU", D(4, 6), No, No, No, E), T("V4", "FITKU", D(0 - 1, 6), No, No, No, E)}
F(k, d) == [kind |-> k, day |-> d]
Strikes == {F("none", 0), F("save", 0), F("stamp", 0), F("secret", 0), F("connect", 0)} \cup {F("source", d) : d \in {0 - 1, 1, 4, 5, 99}}
StrikesQ == {f \in Strikes : f.kind # "source" \/ f.day \in {0 - 1, 1, 4}}
\* what may be asked of a whole fleet
K(id, port, eta, etd, ata, atd, status, upd) == [id |-> id, port |-> port, eta |-> eta, etd |-> etd, ata |-> ata, atd |-> atd, status |-> status, upd |-> upd]
Fleet == {{K("V1", "FIHEL", D(1, 6), No, No, No, E, 0), K("V2", "FIKTK", D(0 - 3, 0), D(1, 6), D(0 - 2, 5), No, "Arrived", 3), K("V3", "FITKU", D(0 - 80, 0), D(0 - 79, 0), D(0 - 80, 1), D(0 - 79, 1), "Departed", 5),
           K("V4", "FIHEL", D(80, 0), D(80, 6), No, No, "Cancelled", 7), K("V5", "FIRAU", D(0 - 2, 4), D(0 - 1, 0), No, D(0 - 1, 2), "Departed", 9)},
          {K("V1", "FIHEL", D(0 - 100, 0), No, D(0, 1), No, "Arrived", 1), K("V2", "FIHEL", D(100, 0), No, No, No, E, 2), K("V3", "FIKTK", D(0, 6), D(0, 7), D(0, 6), No, "Arrived", 3), K("V4", "FITKU", D(0, 8), No, No, D(0, 9), "Departed", 4)}, {}}
Fields == {"eta", "etd", "ata", "atd", "vesselName", "portOfCall", "status"}
Edge == {No, D(0 - 80, 0), D(0 - 2, 4), D(0 - 2, 5), D(0 - 2, 6), D(0 - 1, 0), D(0 - 1, 2), D(0 - 1, 3), D(1, 5), D(1, 6), D(1, 7), D(80, 6), D(80, 7)}
Sorted == {A([Q EXCEPT !.field = f, !.dir = d]) : f \in Fields, d \in {"asc", "desc"}}
Times == {A([Q EXCEPT !.from = f, !.to = t]) : f \in Edge, t \in Edge}
Parts == {A([Q EXCEPT !.name = x]) : x \in {"alpha", "LPH", "ALPHA", "ta", "a r", "zeta"}} \cup {A([Q EXCEPT !.port = x]) : x \in {"FIHEL", "fihel", "FIRAU", "FIXXX", "FIHE"}}
         \cup {A([Q EXCEPT !.imo = x]) : x \in {"9000001", "9000002", "900000", "1"}} \cup {A([Q EXCEPT !.status = x]) : x \in {"arrived", "ARRIVED", "expected-to-arrive", "departed", "cancelled"}}
Mixed == {A([Q EXCEPT !.from = f, !.to = t, !.port = p, !.status = s, !.imo = i, !.field = o, !.dir = "desc"]) : f \in {No, D(0 - 2, 5)}, t \in {No, D(1, 7)}, p \in {"-", "FIHEL"}, s \in {"-", "arrived", "expected-to-arrive"}, i \in {"-", "9000001"}, o \in {"etd", "ata"}}
Bad == {[what |-> "bad", id |-> b, fault |-> "-"] : b \in {"unknown", "from", "to", "imo", "status", "shown status", "sort", "sort direction", "sort field", "no port", "no name", "sort more"}}
Down == {[what |-> "all", q |-> Q, fault |-> f] : f \in {"secret", "connect", "read"}} \cup {[what |-> "one", id |-> "V1", fault |-> f] : f \in {"secret", "connect", "read"}}
Questions == All \cup Sorted \cup Times \cup Parts \cup Mixed \cup Bad \cup Down \cup {G(x) : x \in {"V1", "V2", "V3", "V4", "V5", "V9"}}
Few == All \cup {G("V1")} \cup {A([Q EXCEPT !.from = D(2, 0)])}
Long == {24 * 60}
=============================================================================
