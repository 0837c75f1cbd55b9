---------------------------- MODULE RoadWorksMC ------------------------------
EXTENDS RoadWorks
None == {}
O(m, c, t, v) == [m |-> m, c |-> c, t |-> t, v |-> v]
M(obs, sender, sent, id) == [kind |-> "obs", obs |-> obs, sender |-> sender, sent |-> sent, id |-> id, big |-> FALSE]
Big(m) == [m EXCEPT !.big = TRUE]
Odd(k) == [M(<<>>, "-", 0, 9) EXCEPT !.kind = k]
P(m) == [kind |-> "msg", fault |-> FALSE, msg |-> m]
Down(p) == [p EXCEPT !.fault = TRUE]
NoMsg(k) == [kind |-> k, fault |-> FALSE, msg |-> Odd("odd")]
A == O(1, 7, 0, "plain")
A2 == O(1, 7, 0, "other")        \* the same but for a detail
A3 == O(2, 7, 0, "plain")
A4 == O(1, 8, 0, "plain")
A5 == O(1, 7, 1, "plain")
Q == O(1, 7, 2, "quotes")
Z == O(1, 7, 3, "zone")
Bad == O(3, 7, 0, "bad")
Hit == O(4, 7, 0, "hit")
\* what one message can be
OnePosts == {P(M(o, s, 5, 1)) : o \in {<<>>, <<A>>, <<A, A>>, <<A, A2>>, <<A2, A>>, <<A, A3, A4, A5>>, <<Q>>, <<Z, Q>>, <<Bad>>, <<A, Bad>>, <<Bad, A>>}, s \in {"harja", "-"}}
            \cup {P(Big(M(<<A, A2>>, "harja", 5, 1))), P(Odd("odd")), P(Odd("text")), Down(P(M(<<A>>, "harja", 5, 1))), Down(P(Big(M(<<A>>, "harja", 5, 1)))), NoMsg("junk"), NoMsg("empty"), NoMsg("none")}
One == {[n |-> 1, fault |-> "-"]}
AllTakes == {[n |-> c, fault |-> f] : c \in {1}, f \in {"-", "connect", "save", "secret", "store"}}
\* one after another, sent again, with other words around the same observation
AgainPosts == {P(M(<<A>>, "harja", 5, 1)), P(M(<<A>>, "harja", 5, 2)), P(M(<<A>>, "other", 6, 3)), P(M(<<A2, A>>, "-", 7, 4)), P(M(<<A3, Bad>>, "harja", 5, 5))}
\* several at once: the same observation comes with the same words
ManyPosts == {P(M(<<A, A2>>, "harja", 5, 1)), P(M(<<A2, A3>>, "harja", 5, 2)), P(M(<<A4, Bad>>, "harja", 5, 3)), P(Odd("odd")), P(Big(M(<<A5, Q>>, "harja", 5, 4)))}
Two == {[n |-> 2, fault |-> "-"], [n |-> 3, fault |-> "-"]}
\* what goes wrong
FaultPosts == {P(M(<<A, Hit>>, "harja", 5, 1)), P(M(<<A, A2>>, "harja", 5, 2)), P(Big(M(<<Hit, A3>>, "harja", 5, 3)))}
FaultTakes == {[n |-> c, fault |-> f] : c \in {1, 2}, f \in {"-", "connect", "save", "secret", "store"}}
Piles == {<<"a">>, <<"b", "b">>, <<"a", "">>, <<"{\"x\": \"y\"}", "a", "b">>}
Minute == {1}
\* ---- trackings
T(id, dom, end, created, prev) == [id |-> id, dom |-> dom, end |-> end, created |-> created, prev |-> prev]
NoTracks == {{}}
Ends == {0 - 1559, 0 - 1560, 0 - 1561, 0 - 1620, 0 - 1680, 0 - 3000, 0 - 60}
Pairs == {{T(1, "roads", e, c, 0), T(2, "roads", f, 0 - 100, p)} : e \in Ends, f \in Ends, c \in {0 - 1500, 0 - 100, 0 - 50}, p \in {0, 1}}
Domains == {{T(1, "roads", 0 - 3000, 0 - 3000, 0), T(2, d, e, 0 - 1500, 0), T(3, "town", 0 - 2000, c, p)} : d \in {"roads", "town"}, e \in {0 - 3000, 0 - 10}, c \in {0 - 1400, 0 - 1600}, p \in {0, 1, 2}}
Chains == {{T(1, "roads", 0 - 4000, 0 - 4000, 0), T(2, "roads", 0 - 3000, 0 - 3000, 1), T(3, "roads", 0 - 2000, 0 - 2000, 2), T(4, "roads", e, e, 3), T(5, "roads", 0 - 5, 0 - 5, p)} : e \in {0 - 1700, 0 - 1590, 0 - 1000}, p \in {0, 1, 4}}
Singles == {{T(1, "roads", e, c, 0)} : e \in Ends, c \in {0 - 50, 0 - 4000}}
AllTracks == NoTracks \cup Pairs \cup Domains \cup Chains \cup Singles
FewTracks == NoTracks \cup Chains \cup {{T(1, "roads", 0 - 100, 0 - 100, 0), T(2, "roads", 0 - 1620, 0 - 1620, 0), T(3, "town", 0 - 800, 0 - 800, 0), T(4, "roads", 0 - 20, 0 - 20, 1)}}
Sweep == {"-"}
AllSweeps == {"-", "connect", "secret", "oldest", "clear", "delete"}
Hours == {60, 700, 1560}
=============================================================================
