------------------------------ MODULE ValuesMC ------------------------------
EXTENDS Values
Nums == {"0", "25.5", "-120.25"}
A == <<"0", "1">>  B == <<"25.5", "-1">>  C == <<"24.9384", "60.1699">>  D == <<"-120.25", "-0.5", "90">>  E == <<"123.456789012", "0", "0">>
Pts == {A, B, C, D, E}
Ring1 == <<A, B, C, A>>  Ring2 == <<C, D, E, B, C>>  Ring3 == <<B, A, E, B>>
G(t, c) == [type |-> t, coordinates |-> c]
Geos == {G("Point", p) : p \in Pts} \cup {G("Point", <<x, y>>) : x, y \in Nums}
   \cup {G("LineString", <<p, q>>) : p, q \in Pts} \cup {G("LineString", <<A>>), G("LineString", <<A, B, C, D, E>>)}
   \cup {G("Polygon", <<Ring1>>), G("Polygon", <<Ring1, Ring2>>), G("Polygon", <<Ring3, Ring2, Ring1>>)}
   \cup {G("MultiPolygon", <<<<Ring1>>>>), G("MultiPolygon", <<<<Ring1, Ring2>>, <<Ring3>>>>), G("MultiPolygon", <<<<Ring1>>, <<Ring2, Ring3>>, <<Ring3>>>>)}
   \cup {G("MultiPoint", <<A, B>>), G("MultiLineString", <<<<A, B>>, <<C, D>>>>)}
Wkts == {[op |-> "wkt", g |-> g] : g \in Geos}
Gmls == {[op |-> "gml", g |-> g, srs |-> s] : g \in Geos, s \in {Absent, "EPSG:3067"}}
With3(p) == <<p[1], p[2], "90">>
Distances == {[op |-> "distance", i |-> i, j |-> j, p |-> Places[i], q |-> IF alt THEN With3(Places[j]) ELSE Places[j]] : i, j \in DOMAIN Places, alt \in BOOLEAN}
   \cup {[op |-> "distance", i |-> 1, j |-> 1, p |-> x, q |-> y] : x \in {<<"1">>, <<"1", "2", "3", "4">>, <<>>}, y \in {<<"1", "2">>, <<"25">>}}
   \cup {[op |-> "distance", i |-> 1, j |-> 1, p |-> <<"1", "2">>, q |-> y] : y \in {<<"1">>, <<>>, <<"1", "2", "3", "4">>}}
Distincts == {[op |-> "distinct", p |-> p, q |-> q] : p, q \in {<<"0", "0">>, <<"0", "1">>, <<"1", "0">>, <<"1", "1">>, <<"0", "0", "5">>, <<"1", "1", "1">>}}
\* shapes for the schemas, with plain integers as coordinates
Cs == {<<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3, 4>>}
LineShapes == {<<>>, <<<<1, 2>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<1, 2>>, <<3>>>>, <<<<1, 2>>, <<3, 4, 5>>, <<1, 0>>>>, <<<<1, 2>>, <<3, 4>>, <<5, 6>>, <<1, 2>>>>, <<<<1, 2>>, <<3, 4>>, <<5, 6, 7, 8>>, <<1, 2>>>>}
Shapes == {G("Point", c) : c \in Cs} \cup {G("MultiPoint", s) : s \in LineShapes} \cup {G("LineString", s) : s \in LineShapes}
   \cup {G("MultiLineString", <<s, t>>) : s, t \in LineShapes} \cup {G("Polygon", <<s>>) : s \in LineShapes} \cup {G("Polygon", <<s, t>>) : s, t \in LineShapes} \cup {G("Polygon", <<>>)}
   \cup {G("MultiPolygon", <<<<s>>, <<t>>>>) : s, t \in LineShapes} \cup {G("Circle", <<1, 2>>), G("point", <<1, 2>>), G("", <<1, 2>>)}
Nested == {[type |-> "GeometryCollection", geometries |-> gs] : gs \in {<<>>, <<G("Point", <<1, 2>>)>>, <<G("Point", <<1>>)>>, <<G("Point", <<1, 2>>), G("LineString", <<<<1, 2>>>>)>>, <<G("Circle", <<1, 2>>)>>}}
Nested2 == {[type |-> "GeometryCollection", geometries |-> <<G("Point", <<1, 2>>), g>>] : g \in Nested}
Geojsons == {[op |-> "geojson", g |-> g] : g \in Shapes \cup Nested \cup Nested2}
Collections == {[op |-> "collection", date |-> d, features |-> f] : d \in {"2024-02-29T12:34:56.000Z", "null"}, f \in {<<>>, <<"a">>, <<"a", "b", "c">>}}
NotGeojsons == {[op |-> "notgeojson", x |-> x] : x \in {"empty", "list", "notype", "badcoords", "featureless"}}
Imos == {[op |-> "imo", n |-> n] : n \in {0, 1, 999999, 1000000, 1000019, 9999999, 10000000, 907472, 90747290, 9176187, 9176180, 9176178, 1234567, 7777777, 9999993} \cup (9074720..9074739) \cup {9074729 + d : d \in {10, 100, 1000, 10000, 100000, 20, 300, 4000, 0 - 10, 0 - 1000}}}
Mmsis == {[op |-> "mmsi", n |-> n] : n \in {0, 99999999, 100000000, 100000001, 230123456, 999999999, 1000000000, 2000000000, 0 - 230123456}}
Locodes == {[op |-> "locode", s |-> s] : s \in {"FIHEL", "fihel", "FiHel", "FIHE", "FIHELS", "SEHEL", "FI HEL", "FIHE1", " FIHEL", "FIHEL ", "", "XFIHEL", "FIH-L", "FAHEL", "FXHEL", "IFHEL", "FIHE2", "FI2EL", "FIHEL\n", "SEABC\nFIHEL", "FIHEL\nSEABC"}}
X(k, v, o, m) == [kind |-> k, value |-> v, optional |-> o, message |-> m]
Params == {[op |-> "param", x |-> X(k, v, o, m)] : k \in {"number", "date", "text"}, o \in BOOLEAN, m \in {Absent, "own message"}, v \in {Absent, "", " ", "5", "-1.5", "007", "1e3", "0", ".5", "five", "5a", "1,5", "2024-02-29T12:34:56Z", "NaN", "2024-13-01", "yesterday"}}
    \ ({[op |-> "param", x |-> X("number", " ", o, m)] : o \in BOOLEAN, m \in {Absent, "own message"}}
    \cup {[op |-> "param", x |-> X("date", v, o, m)] : v \in {"5", " ", "-1.5", "007", "1e3", "0", ".5", "1,5", "5a"}, o \in BOOLEAN, m \in {Absent, "own message"}})
ParamDates == {[op |-> "param", x |-> X("date", v, FALSE, Absent)] : v \in {"2024-02-29", "2024-02-29T12:34:56.789+02:00", "1969-12-31T23:59:59Z"}}
Isos == {[op |-> "isodate", s |-> s] : s \in {"2024-02-29", "2024-02-29T12:34:56Z", "2024-02-29T12:34:56.789+02:00", "1969-12-31T23:59:59Z", "", "yesterday", "2024-13-01", "2024-02-29T25:00:00Z"}}
U(d, f, t) == [op |-> "utc", d |-> d, f |-> f, text |-> t]
Utcs == {[op |-> "utc", zone |-> z, d |-> u.d, f |-> u.f, text |-> u.text] : z \in {"UTC", "Europe/Helsinki", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati"},
          u \in {U("2024-02-29T23:59:59Z", "yyyy-MM-dd HH:mm", "2024-02-29 23:59"), U("2024-01-01T00:00:00Z", "yyyy-MM-dd HH:mm", "2024-01-01 00:00"), U("2024-03-31T01:30:00Z", "yyyy-MM-dd HH:mm", "2024-03-31 01:30"), U("2024-03-31T00:59:59Z", "HH:mm:ss", "00:59:59"),
                 U("2024-10-27T00:30:00Z", "yyyy-MM-dd'T'HH:mm", "2024-10-27T00:30"), U("2024-06-05T14:07:59Z", "mysql", "2024-06-05 14:07"), U("2024-12-31T22:00:01Z", "dd.MM.yyyy", "31.12.2024")}}
Diffs == {[op |-> "diff", from |-> f, to |-> t, ms |-> t - f, thousands |-> t - f] : f, t \in {0, 1000, 1500, 86400000, 172800000, 172800001}}
Defineds == {[op |-> "defined", x |-> x] : x \in {"undefined", "null", "0", "empty", "false", "NaN", "list", "text"}} \cup {[op |-> "owns", object |-> o, name |-> n] : o \in {"own", "inherited", "bare", "shadowed"}, n \in {"a", "toString", "hasOwnProperty"}}
B64(k, t, e) == [op |-> "base64", kind |-> k, text |-> t, encoded |-> e]
Base64s == {B64("ascii", "", ""), B64("ascii", "user:pass", "dXNlcjpwYXNz"), B64("ascii", "a", "YQ=="), B64("ascii", "ab", "YWI="), B64("ascii", "abc?>~", "YWJjPz5+"), B64("utf8", "", ""), B64("utf8", "abc?>~", "YWJjPz5+"), B64("utf8", "(utf)", "w6Qg4oKsLCDwn4KK"), B64("gzip", "(utf)", "-"), B64("gzip", "abc", "-"), B64("gzip", "", "-")}
Lists == {[list |-> FALSE, v |-> <<n>>] : n \in {"null", "undefined"}} \cup {[list |-> TRUE, v |-> v] : v \in {<<>>, <<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "a">>, <<"a", "b", "c">>, <<"1">>, <<"null">>, <<"undefined">>}}
Sames == {[op |-> "samevalues", x |-> x, y |-> y] : x, y \in Lists}
Ends == {[op |-> "ends", v |-> v] : v \in {<<>>, <<"a">>, <<"a", "b">>, <<"c", "b", "a">>, <<"b", "c", "a", "b">>}}
Lf(v) == [l |-> v]  Ar(v) == [a |-> v]  Ob(f) == [o |-> f]
Trees == {Lf("text"), Lf("(null)"), Lf("(5)"), Lf("(true)"), Ar(<<>>), Ar(<<Lf("a"), Lf("(null)")>>), Ob([a |-> Lf("1")]), Ob([a |-> Lf("1"), b |-> Lf("(null)")]), Ob([b |-> Ob([a |-> Lf("x"), c |-> Ar(<<Ob([a |-> Lf("y"), b |-> Lf("z")]), Lf("w")>>)])]),
          Ob([c |-> Ob([c |-> Ob([c |-> Lf("deep")])]), a |-> Ar(<<Ar(<<Ob([b |-> Lf("q"), c |-> Lf("(5)")])>>)>>)]), Ob([a |-> Ob([b |-> Lf("x")])])}
Omits == {[op |-> "omit", t |-> t, keys |-> k] : t \in Trees, k \in SUBSET {"a", "b", "c"}} \cup {[op |-> "omit", t |-> t, keys |-> {"zz"}] : t \in Trees}
Envs == {[op |-> "setenv", k |-> k, v |-> v] : k \in {"X", "Y"}, v \in {"", "value", "other value"}} \cup {[op |-> "getenv", k |-> k] : k \in {"X", "Y"}}
Messages == {[op |-> "message", e |-> e] : e \in {"error", "string", "null", "undefined", "number"}}
Notifies == {[op |-> "notify", text |-> t, answer |-> a] : t \in {"hello", "with \"quotes\" and\nlines", ""}, a \in {"ok", "500", "404", "down"}}
Uploads == {[op |-> "upload", bucket |-> "b1", key |-> k, body |-> b, acl |-> l, type |-> t, answer |-> a] : k \in {"k/1.json", "K/Ab c+%2F.JSON"}, b \in {"content", ""}, l \in {Absent, "private"}, t \in {Absent, "application/json"}, a \in {"ok", "down"}}
GeoProbes == Wkts \cup Gmls \cup Distances \cup Distincts \cup Geojsons \cup Collections \cup NotGeojsons
IdProbes == Imos \cup Mmsis \cup Locodes \cup Params \cup ParamDates \cup Isos \cup Utcs \cup Diffs \cup Base64s
MiscProbes == Sames \cup Ends \cup Omits \cup Envs \cup Messages \cup Defineds \cup Notifies \cup Uploads
AllImos == {[op |-> "imo", n |-> n] : n \in (9070000..9079999) \cup (1000000..1001000) \cup (9999000..10000100)}
=============================================================================
