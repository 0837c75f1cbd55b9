---------------------------- MODULE WinterNavMC ------------------------------
EXTENDS WinterNav
No == 0 - 999
Ok(fail) == [crash |-> "none", noversion |-> FALSE, fail |-> fail, mid |-> <<>>]
Good == Ok({})
Cut(p) == [Good EXCEPT !.crash = p]
Moving(b) == [Good EXCEPT !.mid = b]
NoVersion == [Good EXCEPT !.noversion = TRUE]
\* ---- locations
L(name, list, codes, lat, lon, w) == [name |-> name, type |-> "PORT", locode_list |-> list, nationality |-> "FI", latitude |-> lat, longitude |-> lon, winterport |-> w, codes |-> codes]
R(l, t, s, e) == [location_id |-> l, text_compilation |-> t, start_time |-> s, end_time |-> e]
S(s, e, p, c, d, m) == [start_time |-> s, end_time |-> e, prenotification |-> p, ports_closed |-> c, due_to |-> d, specifications |-> m]
P(s, l) == [suspension_id |-> s, location_id |-> l]
LocationValues == ("location" :> ("L1" :> <<L("Helsinki", "FIHEL", {"FIHEL"}, 60, 25, TRUE), L("Helsingfors", "FIHEL,FIVUO", {"FIHEL", "FIVUO"}, 61, 26, FALSE)>> @@ "L2" :> <<L("Kotka", "FIKTK,FIHMN", {"FIKTK", "FIHMN"}, 62, 27, TRUE)>>))
   @@ ("restriction" :> ("R1" :> <<R("L1", "1A", 0 - 100, No), R("L2", "1B", 0 - 50, 500)>> @@ "R2" :> <<R("L1", "2", 10, 20)>>))
   @@ ("port-suspension" :> ("S1" :> <<S(0, No, TRUE, FALSE, "ice", "-"), S(5, 60, FALSE, TRUE, "storm", "late")>>))
   @@ ("port-suspension-location" :> ("P1" :> <<P("S1", "L1"), P("S1", "L2")>> @@ "P2" :> <<P("S1", "L2")>>))
LocationAll == <<<<"location", "L1", 1>>, <<"location", "L2", 1>>, <<"restriction", "R1", 1>>, <<"restriction", "R2", 1>>, <<"port-suspension", "S1", 1>>, <<"port-suspension-location", "P1", 1>>>>
LocationBatches == {LocationAll, <<<<"location", "L1", 2>>>>, <<<<"location", "L1", 0>>, <<"restriction", "R1", 0>>>>, <<<<"location", "L2", 0>>>>, <<<<"restriction", "R1", 2>>>>, <<<<"restriction", "R1", 0>>, <<"restriction", "R2", 0>>>>,
   <<<<"port-suspension", "S1", 2>>, <<"restriction", "R1", 1>>>>, <<<<"port-suspension", "S1", 0>>>>, <<<<"port-suspension-location", "P1", 2>>>>, <<<<"port-suspension-location", "P1", 0>>, <<"port-suspension-location", "P2", 1>>>>, <<<<"port-suspension-location", "P1", 1>>>>, <<<<"location", "L1", 1>>, <<"port-suspension", "S1", 1>>>>}
LocationRunsAll == {Good, Ok({"location"}), Ok({"restriction", "port-suspension-location"}), Cut("wn_location"), Cut("wn_restriction"), Cut("wn_data_version"), Cut("updated_timestamp"), Cut("second"), Moving(<<<<"restriction", "R2", 0>>>>), Moving(<<<<"port-suspension", "S1", 2>>, <<"restriction", "R1", 2>>>>), NoVersion}
LocationRuns == {Good, Ok({"location"}), Ok({"restriction", "port-suspension-location"}), Cut("wn_location"), Cut("wn_data_version"), Cut("second"), Moving(<<<<"restriction", "R2", 0>>>>), NoVersion}
LocationAsks == {"FIHEL", "FIVUO", "FIHMN", "FIKTK", "FIH", "FIXXX"}
\* ---- dirways
D(name, t) == [name |-> name, description |-> t]
W(d, o, x, y) == [dirway_id |-> d, order_num |-> o, name |-> "w", latitude |-> y, longitude |-> x]
DirwayValues == ("dirway" :> ("D1" :> <<D("one", "north"), D("first", "northern")>> @@ "D2" :> <<D("two", "south")>>))
   @@ ("dirwaypoint" :> ("W1" :> <<W("D1", 2, 20, 60), W("D1", 30, 21, 61)>> @@ "W2" :> <<W("D1", 10, 22, 62), W("D2", 3, 22, 62)>> @@ "W3" :> <<W("D1", 1, 23, 63)>> @@ "W4" :> <<W("D2", 1, 24, 64)>>))
DirwayAll == <<<<"dirway", "D1", 1>>, <<"dirway", "D2", 1>>, <<"dirwaypoint", "W1", 1>>, <<"dirwaypoint", "W2", 1>>, <<"dirwaypoint", "W3", 1>>, <<"dirwaypoint", "W4", 1>>>>
DirwayBatches == {DirwayAll, <<<<"dirway", "D1", 2>>>>, <<<<"dirway", "D1", 0>>>>, <<<<"dirwaypoint", "W1", 2>>, <<"dirwaypoint", "W2", 2>>>>, <<<<"dirwaypoint", "W3", 0>>, <<"dirwaypoint", "W4", 0>>>>, <<<<"dirwaypoint", "W4", 1>>, <<"dirway", "D1", 1>>>>, <<<<"dirwaypoint", "W1", 0>>, <<"dirwaypoint", "W2", 0>>>>, <<<<"dirwaypoint", "W1", 1>>>>}
NoAsks == {}
DirwayRuns == {Good, Ok({"dirway"}), Ok({"dirwaypoint"}), Cut("wn_dirway"), Cut("wn_dirwaypoint"), Cut("wn_data_version"), Moving(<<<<"dirwaypoint", "W3", 0>>>>)}
DirwayRunsAll == DirwayRuns \cup {NoVersion, Cut("updated_timestamp"), Cut("second")}
\* ---- vessels
V(name, imo, mmsi, call, short, type) == [name |-> name, imo |-> imo, mmsi |-> mmsi, callsign |-> call, shortcode |-> short, type |-> type]
B(name, x) == [name |-> name, shortname |-> "s", nationality |-> "FI", type |-> "ICEBREAKER", vessel_id |-> x]
Q(b, x, s, e, o) == [icebreaker_id |-> b, vessel_id |-> x, start_time |-> s, end_time |-> e, order_num |-> o]
A(b, x, t, r, c, s, e) == [icebreaker_id |-> b, vessel_id |-> x, type |-> t, reason |-> r, public_comment |-> c, start_time |-> s, end_time |-> e]
Week == 7 * 1440
VesselValues == ("vessel" :> ("V1" :> <<V("Assisted", 1000001, 230000001, "CALL", "A", "CARGO"), V("Renamed", 1000001, 230000011, "-", "-", "-")>> @@ "V2" :> <<V("Breaker", 2000002, 230000002, "B", "-", "ICEBREAKER")>>
       @@ "V3" :> <<V("Numberless", 0, 230000003, "-", "N", "CARGO")>> @@ "V4" :> <<V("Old breaker", 0, 230000004, "-", "-", "-")>> @@ "V5" :> <<V("Again", 1000001, 230000001, "-", "-", "CARGO")>> @@ "V6" :> <<V("Silent", 6000006, 0, "-", "-", "-")>> @@ "V7" :> <<V("Silent breaker", 7000007, 0, "-", "-", "-")>>))
   @@ ("source" :> ("B2" :> <<B("Breaker", "V2")>> @@ "B4" :> <<B("Old", "V4"), B("Old", "V2")>> @@ "B7" :> <<B("Silent breaker", "V7")>>))
   @@ ("queue" :> ("Q1" :> <<Q("B2", "V1", 0 - 60, 60, 1), Q("B2", "V3", 100, 200, 2)>> @@ "Q2" :> <<Q("B4", "V3", 30, 90, 1), Q("B4", "V3", 300, No, 5)>> @@ "Q5" :> <<Q("B2", "V5", 0, 10, 3)>> @@ "Q6" :> <<Q("B7", "V6", 20, 20, 4)>>))
   @@ ("activity" :> ("A1" :> <<A("B2", "V1", "LED", "ice", "slow", 0 - Week - 300, 0 - Week + 2), A("B2", "V1", "TOW", "-", "-", 0 - 500, 0 - 100)>> @@ "A2" :> <<A("B2", "-", "STOP", "crew", "-", 0 - 30, 30)>> @@ "A3" :> <<A("B4", "V3", "ORD", "-", "wait", 500, No)>> @@ "A4" :> <<A("B7", "V6", "ORD", "-", "-", 40, 40)>>))
VesselAll == <<<<"vessel", "V1", 1>>, <<"vessel", "V2", 1>>, <<"vessel", "V3", 1>>, <<"vessel", "V4", 1>>, <<"vessel", "V6", 1>>, <<"vessel", "V7", 1>>, <<"source", "B2", 1>>, <<"source", "B4", 1>>, <<"source", "B7", 1>>, <<"queue", "Q1", 1>>, <<"queue", "Q2", 1>>, <<"queue", "Q6", 1>>, <<"activity", "A1", 1>>, <<"activity", "A2", 1>>, <<"activity", "A3", 1>>, <<"activity", "A4", 1>>>>
VesselBatches == {VesselAll, <<<<"queue", "Q1", 0>>, <<"activity", "A1", 0>>, <<"vessel", "V1", 0>>>>, <<<<"queue", "Q1", 0>>, <<"activity", "A1", 0>>, <<"vessel", "V1", 0>>, <<"vessel", "V5", 1>>, <<"queue", "Q5", 1>>>>, <<<<"queue", "Q1", 2>>>>, <<<<"activity", "A1", 2>>, <<"activity", "A2", 0>>>>, <<<<"vessel", "V1", 2>>, <<"source", "B4", 2>>>>, <<<<"activity", "A3", 0>>, <<"queue", "Q2", 0>>>>, <<<<"activity", "A3", 1>>, <<"queue", "Q1", 1>>, <<"queue", "Q2", 2>>>>}
\* what refers to something is only taken over together with it: fetches that fail here are of what nothing refers to
VesselRuns == {Good, Ok({"queue"}), Ok({"activity"}), Cut("wn_vessel"), Moving(<<<<"activity", "A2", 0>>>>)}
VesselRunsAll == VesselRuns \cup {Cut("wn_queue"), NoVersion, Cut("updated_timestamp"), Cut("second")}
K(id, f, t) == [id |-> id, from |-> f, to |-> t]
VesselAsksAll == {K(id, No, No) : id \in {0, 1000001, 230000001, 230000011, 2000002, 230000002, 230000003, 230000004, 6000006, 7000007, 5, 9999999}}
   \cup {K(0, f, t) : f \in {No, 0 - Week - 400, 0 - 100, 0 - 99, 60, 61, 200}, t \in {No, 100, 99, 30}} \cup {K(0, 200, 499), K(0, 200, 500), K(0, 201, 600), K(0, 500, No)}
   \cup {K(2000002, f, t) : f \in {No, 0 - 100, 31, 61}, t \in {No, 0 - 31, 0 - 30, 99}} \cup {K(230000003, 91, No), K(230000003, 90, 499), K(230000003, No, 29), K(230000004, 90, 500)}
VesselAsks == {K(id, No, No) : id \in {0, 1000001, 230000001, 230000011, 2000002, 230000003, 230000004, 6000006, 7000007, 9999999}}
   \cup {K(0, 0 - 100, No), K(0, 0 - 99, No), K(0, 60, No), K(0, 61, No), K(0, 0 - Week - 400, 99), K(0, 200, 499), K(0, No, 30), K(2000002, 31, 99), K(2000002, No, 0 - 31), K(2000002, 0 - 100, 0 - 30), K(0, 20, 20), K(0, 40, 40), K(6000006, 20, 20), K(6000006, 40, 40), K(7000007, 20, 20), K(7000007, 40, 40), K(6000006, 41, 41), K(7000007, 19, 19), K(0, 500, 500), K(0, 300, 300), K(230000003, 500, 500), K(230000003, 300, 300), K(230000004, 500, 500), K(230000004, 300, 300), K(230000003, 501, 600), K(230000003, 301, 499)}
\* ---- everything is withdrawn, in whole or in part, and put back
Gone(all) == [i \in DOMAIN all |-> <<all[i][1], all[i][2], 0>>]
Backs(all) == {all, Gone(all)} \cup {SubSeq(all, 1, i) : i \in {2, 4}}
LocationBacks == Backs(LocationAll)
DirwayBacks == Backs(DirwayAll)
VesselBacks == {VesselAll, Gone(VesselAll), <<<<"queue", "Q1", 0>>, <<"activity", "A1", 0>>, <<"vessel", "V1", 0>>, <<"vessel", "V5", 1>>, <<"queue", "Q5", 1>>>>, <<<<"queue", "Q5", 0>>, <<"vessel", "V5", 0>>, <<"vessel", "V1", 2>>>>}
GoodRuns == {Good}
=============================================================================
