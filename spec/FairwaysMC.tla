---------------------------- MODULE FairwaysMC ----------------------------
EXTENDS Fairways
A(id, minutes, w, s, e, k) == [id |-> id, minutes |-> minutes, w |-> w, s |-> s, e |-> e, n |-> k]
\* the second and third overlap; the ids are not in the order of the map
TheAreas == <<A(3, 2, 20, 60, 22, 61), A(8, 3, 23, 61, 26, 64), A(21, 1, 25, 61, 29, 62)>>
S(name, mmsi, known) == [name |-> name, mmsi |-> mmsi, known |-> known]
TheShips == <<S("AINO", 230000900, TRUE), S("BELLA", 230000100, TRUE), S("AARO", 230000500, FALSE)>>
W(ship, x, y, sog, age) == [ship |-> ship, x |-> x, y |-> y, sog |-> sog, age |-> age]
NoSights == {}
\* corners, edges and just beyond
Spots == {W(1, x, y, 80, 0) : x \in {19, 20, 21, 22, 23, 25, 26, 28, 29, 30}, y \in {59, 60, 61, 62, 63, 65}}
Speeds == {W(1, 21, 60, v, 0) : v \in {0, 1, 19, 20, 21, 150, 1022, 1023, 1024}}
Agos == {W(1, 21, 60, 80, d) : d \in {0, 1, 59, 60, 119, 120, 121, 180}}
Strange == {W(3, 21, 60, 80, 0)}
Anywhere == Spots \cup Speeds \cup Agos \cup Strange
\* two ships about the areas, moving and not
Pairs == {W(s, x, 61, v, 0) : s \in {1, 2}, x \in {21, 25}, v \in {15, 80}}
PairsT == {W(s, x, 61, v, d) : s \in {1, 2}, x \in {21, 24, 25, 28}, v \in {15, 80, 1023}, d \in {0, 60}}
One == {W(1, 21, 61, 80, 0)}
Both == {W(1, 25, 61, 80, 0), W(2, 21, 61, 80, 0)}
Stay == {W(2, 25, 61, 40, 0), W(2, 30, 61, 40, 0), W(1, 25, 61, 21, 60)}
G(vis, fails, fault) == [vis |-> vis, fails |-> fails, fault |-> fault]
None == <<0, 0, 0>>
Plain == {G("clear", None, "-")}
Views == {G(v, None, "-") : v \in {"clear", "fog", "lost", "missing", "junk", "empty"}}
Failing == {G(v, <<i, j, k>>, "-") : v \in {"clear", "lost"}, i \in {0, 2, 3}, j \in {0, 1, 3}, k \in {0, 3}}
Struck == Plain \cup {G("clear", None, f) : f \in {"secret", "connect", "read", "mark", "first"}}
NoWaits == {}
Minutes == {60}
Near == {59, 60, 61}
Ages == {1, 59, 60, 119, 120, 121}
=============================================================================
