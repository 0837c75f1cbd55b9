------------------------------ MODULE CanaryMC -------------------------------
EXTENDS Canary
A(s, c, o, h, e, b, cut) == [status |-> s, ctype |-> c, cors |-> o, header |-> h, enc |-> e, body |-> b, cut |-> cut]
Single == {"type json", "type csv", "two items", "has euro", "json, two items", "csv, has euro", "jpeg", "geojson", "geojson, one", "header", "no header", "array or object"}
X(k, l) == [kind |-> k, all |-> l]
SingleChecks == {X("200", <<>>)} \cup {X("200", <<c>>) : c \in Single} \cup {[kind |-> "status", status |-> s, all |-> <<c>>] : s \in {199, 201, 204, 299, 300, 304}, c \in {"two items", "type json", "json, two items"}}
            \cup {X("404", <<>>), X("400", <<>>)} \cup {[kind |-> "403", ctype |-> t] : t \in {"application/json", "text/plain"}}
Types == {"application/json", "application/json;charset=UTF-8", "text/csv", "text/plain", "application/geo+json;charset=UTF-8", "image/jpeg", "-"}
AllAnswers == {A(s, c, o, h, e, b, "whole") : s \in {200}, c \in Types, o \in BOOLEAN, h \in BOOLEAN, e \in {"plain"}, b \in {"array", "object", "text", "collection", "bad collection"}}
          \cup {A(s, c, o, FALSE, "plain", "array", "whole") : s \in {199, 201, 204, 299, 300, 304, 400, 403, 404, 500}, c \in Types, o \in BOOLEAN}
          \cup {A(200, c, TRUE, TRUE, e, b, cut) : c \in {"application/json", "application/geo+json;charset=UTF-8", "text/csv"}, e \in {"plain", "gzip", "only said to be gzip"}, b \in {"array", "object", "text", "collection", "collection of one", "bad collection", "point"}, cut \in {"whole", "bytes"}}
PairOf == {"type json", "two items", "has euro", "header", "no header", "json, two items", "geojson, one"}
PairChecks == {X("200", <<c, d>>) : c \in PairOf, d \in PairOf} \cup {X("200", <<"type json", "header", "two items">>), X("200", <<"two items", "type json", "has euro">>)}
PairAnswers == {A(200, c, TRUE, h, e, b, cut) : c \in {"application/json", "application/geo+json;charset=UTF-8"}, h \in BOOLEAN, e \in {"plain", "gzip"}, b \in {"array", "object", "text", "collection of one"}, cut \in {"whole", "bytes"}}
           \cup {A(404, "text/plain", TRUE, TRUE, "plain", "text", "whole"), A(500, "application/json", TRUE, TRUE, "plain", "array", "whole")}
RunChecks == {X("200", <<"type json", "two items">>), X("200", <<>>), X("404", <<>>), [kind |-> "403", ctype |-> "application/json"]}
RunAnswers == {A(200, "application/json", TRUE, TRUE, "gzip", "array", "whole"), A(403, "application/json", TRUE, TRUE, "plain", "object", "whole"), A(404, "text/plain", TRUE, TRUE, "plain", "text", "whole")}
AnyCounts == {0, 1, 2, 10, NoCount, NoRow, DbBad}
NoAlarm == [given |-> FALSE, name |-> None, threshold |-> 0, periods |-> 0, topic |-> None]
SomeAlarm(nm, t, p, to) == [given |-> TRUE, name |-> nm, threshold |-> t, periods |-> p, topic |-> to]
B0 == [kind |-> "url", via |-> "v1", vpc |-> TRUE, group |-> TRUE, secret |-> TRUE, grant |-> FALSE, cname |-> None, alarm |-> NoAlarm, rate |-> 0, env |-> "-", runtime |-> None, keys |-> 1, invpc |-> FALSE, db |-> FALSE, apigw |-> FALSE]
Alarms == {NoAlarm, SomeAlarm(None, 0, 0, "my-topic"), SomeAlarm("named", 50, 3, None), SomeAlarm("named", 0, 2, "my-topic")}
AllBuilds == {[B0 EXCEPT !.invpc = i, !.vpc = v, !.group = g, !.secret = s, !.grant = s] : i, v, g, s \in BOOLEAN}
        \cup {[B0 EXCEPT !.alarm = a, !.rate = r, !.env = e, !.keys = k, !.db = d] : a \in Alarms, r \in {0, 5}, e \in {"-", "more", "other host"}, k \in {0, 1, 2}, d \in {FALSE}}
        \cup {[B0 EXCEPT !.kind = "db", !.via = w, !.vpc = v, !.group = g, !.secret = s, !.db = d] : w \in {"v1", "v2"}, v, g, s, d \in BOOLEAN}
        \cup {[B0 EXCEPT !.kind = "db", !.via = w, !.alarm = a, !.rate = r, !.env = e, !.cname = IF w = "v2" THEN c ELSE None] : w \in {"v1", "v2"}, a \in Alarms, r \in {0, 5}, e \in {"-", "more"}, c \in {None, "thing", "other"}}
        \cup {[B0 EXCEPT !.apigw = TRUE]}
        \cup {[B0 EXCEPT !.kind = k, !.runtime = "syn-nodejs-puppeteer-9.1"] : k \in {"url", "db"}}
FewCounts == {0, 1, 2, NoCount}
Q == {"SELECT Count(*) FROM t", "select count(*) from t", "select max(n), count(*) from t", "select 1", "delete from t", "analyze count", "truncate t"}
NoSet == {}
=============================================================================
