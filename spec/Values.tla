------------------------------- MODULE Values -------------------------------
(* The conversions and validations that the services share: geometries, distances,    *)
(* identifiers of vessels and ports, parameters, dates, encodings, collections,       *)
(* environment variables and notifications.  Numbers are strings in their own form.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Probes
VARIABLES env, out, act
vars == <<env, out, act>>
View == <<env>>

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
\* ---------------------------------------------------------------- well-known text and GML of a geometry
Pair(c) == c[1] \o " " \o c[2]
Line(cs) == Join(Map(cs, Pair), ",")
Poly(rs) == "(" \o Join(Map(rs, Line), "),(") \o ")"
Multi(ps) == "(" \o Join(Map(ps, Poly), "),(") \o ")"
Wkt(g) == CASE g.type = "Point" -> "POINT(" \o Pair(g.coordinates) \o ")"
            [] g.type = "LineString" -> "LINESTRING(" \o Line(g.coordinates) \o ")"
            [] g.type = "Polygon" -> "POLYGON(" \o Poly(g.coordinates) \o ")"
            [] g.type = "MultiPolygon" -> "MULTIPOLYGON(" \o Multi(g.coordinates) \o ")"
            [] OTHER -> "POLYGON EMPTY"
Known == {"Point", "LineString", "Polygon", "MultiPolygon"}
P8(n) == CASE n = "0" -> "0.0000000" [] n = "1" -> "1.0000000" [] n = "-1" -> "-1.0000000" [] n = "25.5" -> "25.500000" [] n = "-120.25" -> "-120.25000" [] n = "60.1699" -> "60.169900" [] n = "123.456789012" -> "123.45679"
           [] n = "24.9384" -> "24.938400" [] n = "90" -> "90.000000" [] n = "-0.5" -> "-0.50000000" [] n = "3.25" -> "3.2500000"
Pos(c) == Join(Map(c, P8), " ")
PosLine(cs) == Join(Map(cs, Pos), " ")
Gml(g) == CASE g.type = "Point" -> Pos(g.coordinates) [] g.type = "LineString" -> PosLine(g.coordinates) [] g.type = "Polygon" -> Join(Map(g.coordinates, PosLine), " ")
\* ---------------------------------------------------------------- distances
Places == <<<<"0", "0">>, <<"0", "1">>, <<"1", "0">>, <<"25", "60">>, <<"26", "60">>, <<"24.9384", "60.1699">>, <<"23.761", "61.4978">>, <<"179.5", "0">>, <<"-179.5", "0">>, <<"-0.1276", "51.5072">>, <<"0", "90">>, <<"0", "-90">>, <<"-120.25", "0">>, <<"24.9385", "60.1699">>>>
\* great-circle distances between them in metres on a sphere of 6371 km, worked out independently
Metres == <<<<0, 111195, 111195, 7011261, 7038082, 7026287, 7128012, 19959489, 19959489, 5727352, 10007543, 10007543, 13371190, 7026289>>,
            <<111195, 0, 157249, 6903264, 6930316, 6918233, 7019409, 19890768, 19890768, 5616157, 9896348, 10118738, 13370624, 6918236>>,
            <<111195, 157249, 0, 6985371, 7011261, 7000621, 7104698, 19848294, 19959489, 5728320, 10007543, 10007543, 13482385, 7000624>>,
            <<7011261, 6903264, 6985371, 0, 55597, 19198, 179631, 12990531, 13016888, 1817515, 3335848, 16679239, 12704751, 19197>>,
            <<7038082, 6930316, 7011261, 55597, 0, 61827, 206222, 12963249, 12990531, 1869963, 3335848, 16679239, 12739113, 61822>>,
            <<7026287, 6918233, 7000621, 19198, 61827, 0, 160845, 12975619, 13001749, 1820901, 3316956, 16698131, 12687872, 6>>,
            <<7128012, 7019409, 7104698, 179631, 206222, 160845, 0, 12875080, 12898845, 1821823, 3169300, 16845787, 12533082, 160847>>,
            <<19959489, 19890768, 19848294, 12990531, 12963249, 12975619, 12875080, 0, 111195, 14287640, 10007543, 10007543, 6699494, 12975616>>,
            <<19959489, 19890768, 19959489, 13016888, 12990531, 13001749, 12898845, 111195, 0, 14287444, 10007543, 10007543, 6588299, 13001747>>,
            <<5727352, 5616157, 5728320, 1817515, 1869963, 1820901, 1821823, 14287640, 14287444, 0, 4280204, 15734883, 12031452, 1820906>>,
            <<10007543, 9896348, 10007543, 3335848, 3335848, 3316956, 3169300, 10007543, 10007543, 4280204, 0, 20015087, 10007543, 3316956>>,
            <<10007543, 10118738, 10007543, 16679239, 16679239, 16698131, 16845787, 10007543, 10007543, 15734883, 20015087, 0, 10007543, 16698131>>,
            <<13371190, 13370624, 13482385, 12704751, 12739113, 12687872, 12533082, 6699494, 6588299, 12031452, 10007543, 10007543, 0, 12687876>>,
            <<7026289, 6918236, 7000624, 19197, 61822, 6, 160847, 12975616, 13001747, 1820906, 3316956, 16698131, 12687876, 0>>>>
\* ---------------------------------------------------------------- GeoJSON as the schemas see it
CoordOk(c) == Len(c) \in {2, 3}
All(s, Ok(_)) == \A i \in DOMAIN s : Ok(s[i])
LineOk(cs) == Len(cs) >= 2 /\ All(cs, CoordOk)
RingOk(cs) == Len(cs) >= 4 /\ All(cs, CoordOk)
PolyOk(rs) == All(rs, RingOk)
RECURSIVE GeoOk(_)
GeoOk(g) == CASE g.type = "Point" -> CoordOk(g.coordinates) [] g.type = "MultiPoint" -> All(g.coordinates, CoordOk) [] g.type = "LineString" -> LineOk(g.coordinates)
              [] g.type = "MultiLineString" -> All(g.coordinates, LineOk) [] g.type = "Polygon" -> PolyOk(g.coordinates) [] g.type = "MultiPolygon" -> All(g.coordinates, PolyOk)
              [] g.type = "GeometryCollection" -> All(g.geometries, GeoOk) [] OTHER -> FALSE
\* ---------------------------------------------------------------- identifiers
Digit(n, i) == (n \div (CASE i = 1 -> 1000000 [] i = 2 -> 100000 [] i = 3 -> 10000 [] i = 4 -> 1000 [] i = 5 -> 100 [] i = 6 -> 10 [] i = 7 -> 1)) % 10
ImoOk(n) == /\ n >= 1000000 /\ n <= 9999999
            /\ (7 * Digit(n, 1) + 6 * Digit(n, 2) + 5 * Digit(n, 3) + 4 * Digit(n, 4) + 3 * Digit(n, 5) + 2 * Digit(n, 6)) % 10 = Digit(n, 7)
MmsiOk(n) == n >= 100000000 /\ n <= 999999999
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
At(s, i) == SubSeq(s, i, i)
LocodeOk(s) == Len(s) = 5 /\ At(s, 1) \in {"F", "f"} /\ At(s, 2) \in {"I", "i"} /\ \A i \in 3..5 : At(s, i) \in Upper \cup Lower
\* ---------------------------------------------------------------- parameters
NumberOf(s) == CASE s = "5" -> "5" [] s = "-1.5" -> "-1.5" [] s = "007" -> "7" [] s = "1e3" -> "1000" [] s = "0" -> "0" [] s = ".5" -> "0.5" [] OTHER -> "bad"
DateOf(s) == CASE s = "2024-02-29" -> "2024-02-29T00:00:00.000Z" [] s = "2024-02-29T12:34:56Z" -> "2024-02-29T12:34:56.000Z" [] s = "2024-02-29T12:34:56.789+02:00" -> "2024-02-29T10:34:56.789Z" [] s = "1969-12-31T23:59:59Z" -> "1969-12-31T23:59:59.000Z" [] OTHER -> "bad"
Absent == "-"
Parsed(x) ==
  LET word == CASE x.kind = "number" -> "Not a number" [] x.kind = "date" -> "Invalid date format" [] OTHER -> "String must not be empty"
      no == [fails |-> IF x.message = Absent THEN word ELSE x.message] IN
  IF x.value = Absent THEN (IF x.optional THEN [value |-> Absent] ELSE [fails |-> "missing"])
  ELSE IF x.kind = "text" THEN (IF x.value = "" THEN no ELSE [value |-> x.value])
  ELSE IF x.value = "" THEN [value |-> Absent]
  ELSE LET v == IF x.kind = "number" THEN NumberOf(x.value) ELSE DateOf(x.value) IN IF v = "bad" THEN no ELSE [value |-> v]
\* ---------------------------------------------------------------- trees: a leaf is [l |-> v], a list is [a |-> <<...>>], an object is [o |-> function]
RECURSIVE Omit(_, _)
Omit(t, ks) == IF "l" \in DOMAIN t THEN t
               ELSE IF "a" \in DOMAIN t THEN [a |-> [i \in DOMAIN t.a |-> Omit(t.a[i], ks)]]
               ELSE [o |-> [k \in DOMAIN t.o \ ks |-> Omit(t.o[k], ks)]]
RECURSIVE KeysOf(_)
KeysOf(t) == IF "l" \in DOMAIN t THEN {} ELSE IF "a" \in DOMAIN t THEN UNION {KeysOf(t.a[i]) : i \in DOMAIN t.a} ELSE DOMAIN t.o \cup UNION {KeysOf(t.o[k]) : k \in DOMAIN t.o}
\* ---------------------------------------------------------------- the answers
Range(s) == {s[i] : i \in DOMAIN s}
Answer(a) ==
  CASE a.op = "wkt" -> [text |-> Wkt(a.g), logged |-> IF a.g.type \in Known THEN 0 ELSE 1]
    [] a.op = "gml" -> IF a.g.type \in {"Point", "LineString", "Polygon"} THEN [srsName |-> IF a.srs = Absent THEN "EPSG:4326" ELSE a.srs, posList |-> Gml(a.g)] ELSE [refused |-> TRUE]
    [] a.op = "distance" -> IF Len(a.p) \in {2, 3} /\ Len(a.q) \in {2, 3} THEN [metres |-> Metres[a.i][a.j], km |-> TRUE] ELSE [refused |-> TRUE]
    [] a.op = "distinct" -> [distinct |-> a.p[1] # a.q[1] \/ a.p[2] # a.q[2]]
    [] a.op = "geojson" -> [geometry |-> GeoOk(a.g), feature |-> GeoOk(a.g), collection |-> GeoOk(a.g)]
    [] a.op = "collection" -> [type |-> "FeatureCollection", lastUpdated |-> a.date, features |-> a.features, valid |-> TRUE]
    [] a.op = "notgeojson" -> [valid |-> FALSE, isCollection |-> FALSE]
    [] a.op = "imo" -> [valid |-> ImoOk(a.n)]
    [] a.op = "mmsi" -> [valid |-> MmsiOk(a.n)]
    [] a.op = "locode" -> [valid |-> LocodeOk(a.s)]
    [] a.op = "param" -> Parsed(a.x)
    [] a.op = "isodate" -> IF DateOf(a.s) = "bad" THEN [refused |-> TRUE] ELSE [date |-> DateOf(a.s)]
    [] a.op = "utc" -> [text |-> a.text]
    [] a.op = "diff" -> [ms |-> a.ms, thousands |-> a.thousands]
    [] a.op = "base64" -> [encoded |-> a.encoded, decoded |-> a.text]
    [] a.op = "samevalues" -> [same |-> IF a.x.list /\ a.y.list THEN Range(a.x.v) = Range(a.y.v) ELSE ~a.x.list /\ ~a.y.list]
    [] a.op = "ends" -> IF a.v = <<>> THEN [first |-> "refused", last |-> "refused"] ELSE [first |-> a.v[1], last |-> a.v[Len(a.v)]]
    [] a.op = "omit" -> [tree |-> Omit(a.t, a.keys), untouched |-> TRUE]
    [] a.op = "getenv" -> (LET v == env[a.k] IN [get |-> IF v = Absent THEN "refused" ELSE v, safe |-> IF v = Absent THEN "error" ELSE "ok " \o v, orElse |-> IF v = Absent THEN "other" ELSE v, orCalled |-> v = Absent])
    [] a.op = "message" -> [text |-> CASE a.e = "error" -> "TypeError: wrong" [] a.e = "string" -> "plain" [] a.e = "null" -> "null" [] a.e = "undefined" -> "undefined" [] a.e = "number" -> "42"]
    [] a.op = "defined" -> [defined |-> a.x \notin {"undefined", "null"}]
    \* an object made of a plain one, one of a class, one without prototype, one with its own hasOwnProperty
    [] a.op = "owns" -> [owns |-> CASE a.object = "own" -> a.name = "a" [] a.object = "inherited" -> FALSE [] a.object = "bare" -> a.name = "a" [] a.object = "shadowed" -> a.name \in {"a", "hasOwnProperty"}]
    [] a.op = "notify" -> [posts |-> <<[url |-> "https://hooks.example.com/abc", text |-> a.text]>>, threw |-> FALSE, errors |-> IF a.answer = "ok" THEN 0 ELSE 1]
    [] a.op = "upload" -> [puts |-> <<[bucket |-> a.bucket, key |-> a.key, body |-> a.body, acl |-> a.acl, contentType |-> a.type]>>, threw |-> FALSE, errors |-> IF a.answer = "ok" THEN 0 ELSE 1]
    [] a.op = "setenv" -> [set |-> TRUE]
Init == env = [X |-> Absent, Y |-> Absent] /\ out = <<>> /\ act = [op |-> "init"]
Do(a) == /\ out' = Answer(a) /\ act' = a
         /\ env' = IF a.op = "setenv" THEN [env EXCEPT ![a.k] = a.v] ELSE env
Next == \E a \in Probes : (env = [X |-> Absent, Y |-> Absent] \/ a.op \in {"setenv", "getenv"}) /\ Do(a)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- properties of the specification itself
ASSUME \A i, j \in DOMAIN Places : Metres[i][j] = Metres[j][i] /\ (Metres[i][j] = 0 <=> i = j)
ASSUME \A i, j, k \in DOMAIN Places : Metres[i][k] <= Metres[i][j] + Metres[j][k] + 1
\* changing one digit of a valid IMO number, or swapping the check digit, makes it invalid in at least one of the positions that the weights protect
ASSUME \A n \in {9074729, 9176187, 1000019} : ImoOk(n) => \A d \in 0..9 : ImoOk(10 * (n \div 10) + d) <=> d = n % 10
OmitsAll == act.op = "omit" => KeysOf(out.tree) \cap act.keys = {} /\ (act.keys \cap KeysOf(act.t) = {} => out.tree = act.t)
Invariants == OmitsAll
Obs == out'
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs, l |-> TLCGet("level")]))
=============================================================================
