---------------------------- MODULE IntegrationMC -----------------------------
EXTENDS Integration
D(t, n) == [ty |-> t, nm |-> n]
AllAdds == {D("path", "p1"), D("path", "p2"), D("query", "q1"), D("query", "q2"), D("multi", "m1"), D("header", "h1"), D("query", "h1"), D("context", "authorizer.groups"), D("query", "_hidden"), D("multi", "_hidden"), D("header", "_hidden")}
NoAdds == {}
R(p1, q, h1, g, b) == [path |-> [p1 |-> p1, p2 |-> "plain"], query |-> q, header |-> [h1 |-> h1], context |-> ("authorizer.groups" :> g), body |-> b]
Bare(b) == [path |-> [p1 |-> "plain", p2 |-> "other"], query |-> <<>>, header |-> [x \in {} |-> ""], context |-> [x \in {} |-> ""], body |-> b]
AllRequests == <<
  Bare("empty"),
  R("plain", <<<<"q1", "other">>, <<"q2", "number">>>>, "plain", "other", "json"),
  R("quote", <<<<"q1", "quote">>, <<"q2", "breakout">>, <<"m1", "quote">>>>, "quote", "quote", "broken"),
  R("apostrophe", <<<<"q1", "apostrophe">>, <<"m1", "apostrophe">>, <<"m1", "backslash">>>>, "apostrophe", "apostrophe", "apostrophe"),
  R("backslash", <<<<"q1", "backslash">>, <<"q2", "slashquote">>, <<"m1", "breakout">>>>, "slashquote", "backslash", "unicode"),
  R("unicode", <<<<"q1", "unicode">>, <<"m1", "unicode">>, <<"m1", "plain">>, <<"m1", "plain">>>>, "unicode", "unicode", "long"),
  R("newline", <<<<"q1", "newline">>, <<"q2", "velocity">>, <<"m1", "newline">>>>, "velocity", "newline", "newline"),
  R("velocity", <<<<"q1", "plain">>, <<"q1", "other">>, <<"q2", "empty">>>>, "breakout", "velocity", "json"),
  \* a query that tries to stand in for everything else
  R("plain", <<<<"p1", "evil">>, <<"h1", "evil">>, <<"authorizer.groups", "evil">>, <<"payload", "evil">>, <<"q1", "plain">>>>, "other", "other", "json"),
  R("plain", <<<<"_hidden", "evil">>, <<"_p1", "evil">>, <<"q1", "other">>>>, "other", "plain", "empty"),
  R("other", <<<<"oddname", "plain">>, <<"q1", "breakout">>>>, "plain", "breakout", "quote") >>
FewRequests == SubSeq(AllRequests, 1, 11)
B(m, d, s) == [media |-> m, deprecated |-> d, sunset |-> s]
AllBuilds == {B("application/json", FALSE, "-"), B("text/plain", FALSE, "2022-12-20"), B("application/geo+json;charset=UTF-8", TRUE, "-"), B("text/csv", TRUE, "2022-12-20")}
FewBuilds == {B("application/json", FALSE, "-"), B("text/csv", TRUE, "2022-12-20")}
X(s, b, f, t) == [status |-> s, body |-> b, file |-> f, timestamp |-> t]
AllAnswers == <<X(200, "json", "-", "-"), X(404, "plain", "-", "-"), X(200, "unicode", "data.csv", "2024-02-29"), X(500, "quote", "-", "-"), X(200, "velocity", "-", "2024-02-29"), X(400, "apostrophe", "-", "-"),
                X(200, "newline", "FN.json", "-"), X(200, "long", "-", "-"), X(501, "plain", "-", "-"), X(200, "breakout", "-", "-"), X(413, "plain", "-", "-"), X(201, "plain", "-", "-"), X(304, "json", "-", "2024-02-29"), X(299, "other", "-", "-")>>
NoSeq == <<>>
NoSet == {}
AllQueues == {[fifo |-> f, key |-> k] : f, k \in BOOLEAN}
AllPosts == {[type |-> "application/json", body |-> b, queue |-> s] : b \in {"json", "ampersand", "unicode", "newline", "quote", "velocity"}, s \in {200, 400, 403, 404, 429, 500, 503}}
            \cup {[type |-> "text/xml", body |-> "json", queue |-> 200]}
AllStatics == {[media |-> m, body |-> b, cors |-> c, key |-> k, header |-> h, json |-> j] : m \in {"application/json", "text/plain"}, b \in {"json", "dollar", "unicode"}, c, k, j \in BOOLEAN, h \in {"-", "max-age=60"}} \ {[media |-> "text/plain", body |-> b, cors |-> c, key |-> k, header |-> h, json |-> TRUE] : b \in {"json", "dollar", "unicode"}, c, k \in BOOLEAN, h \in {"-", "max-age=60"}}
AllOlds == {[kind |-> "default", cors |-> c, xml |-> x, media |-> "-"] : c, x \in BOOLEAN} \cup {[kind |-> k, cors |-> TRUE, xml |-> FALSE, media |-> m] : k \in {"bad", "notimplemented"}, m \in {"-", "application/json", "text/csv"}}
           \cup {[kind |-> "ok", cors |-> TRUE, xml |-> FALSE, media |-> m] : m \in {"text/csv", "application/json"}}
AllCalls == {[fails |-> "-", body |-> b] : b \in {"plain", "quote", "unicode"}} \cup {[fails |-> f, body |-> "-"] : f \in {"bad", "notfound", "error"}}
AllGets == {"GET", "HEAD"}
P(s, m, l) == [single |-> s, multi |-> m, lists |-> l]
No == [x \in {} |-> ""]
AllProxies == {P(No, No, l) : l \in {{}, {"a"}}}
  \cup {P([a |-> "empty"], No, l) : l \in {{}, {"a"}}} \cup {P([a |-> "json", b |-> "plain"], No, l) : l \in {{}, {"a"}}}
  \cup {P([a |-> "plain"], No, l) : l \in {{}, {"a"}}}
  \cup {P([a |-> "plain", b |-> "empty"], [a |-> <<"plain">>, b |-> <<"empty">>], l) : l \in {{}, {"a"}, {"a", "b"}, {"c"}}}
  \cup {P([a |-> "other"], [a |-> <<"plain", "other">>], l) : l \in {{}, {"a"}}}
  \cup {P([b |-> "other"], [a |-> <<"plain", "other">>], l) : l \in {{}, {"a"}, {"b"}}}
  \cup {P(No, [a |-> <<"plain">>, b |-> <<"x", "y", "x">>], l) : l \in {{}, {"a"}, {"b"}}}
  \cup {P([a |-> "quote", b |-> "unicode"], [b |-> <<"other", "unicode">>], l) : l \in {{}, {"a"}, {"b"}}}
=============================================================================
