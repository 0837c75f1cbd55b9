----------------------------- MODULE EdgeLimits ------------------------------
(* The access control lists of the distributions of a stack (other/cloudfront): each   *)
(* distribution has the rules it was given, or those of the stack if it was given none; *)
(* what they do shows when a burst of requests, all within one window, comes.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stacks,  \* records [id, rules (of the stack), dists: sequence of rule sequences (<<>>: none given)]
          Bursts
VARIABLES stack, out, act
vars == <<stack, out, act>>
View == <<stack>>
None == -1
Range(f) == {f[i] : i \in DOMAIN f}
\* limits: user, anonymous, user and path, anonymous and path, anonymous on the paths under /slow/
Limits(w) == {w.l[i] : i \in 1..5} \ {None}
\* only counting rules may have a limit under 50; rules picked without counting have both limits per address
Good(w) == w.mode = "count" \/ \A l \in Limits(w) : l >= 50
Effective(i) == IF stack.dists[i] = <<>> THEN stack.rules ELSE stack.dists[i]
Rate(does, who, by, where, lim) == IF lim = None THEN <<>> ELSE <<[does |-> does, who |-> who, by |-> by, where |-> where, lim |-> lim, name |-> <<does, who, by, where, IF does = "count" THEN lim ELSE 0>>]>>
Counting(w) == IF w.mode # "count" THEN <<>> ELSE Rate("count", "named", "ip", "all", w.l[1]) \o Rate("count", "named", "path", "all", w.l[3]) \o Rate("count", "anonymous", "ip", "all", w.l[2]) \o Rate("count", "anonymous", "path", "all", w.l[4])
Group(w, g) == IF w.mode = "all" \/ (w.mode = "some" /\ g \in w.groups) THEN <<[does |-> "group", group |-> g, without |-> w.without, name |-> <<"group", g, "-", "-", 0>>]>> ELSE <<>>
Blocking(w) == IF w.mode = "count" THEN <<>> ELSE
  Group(w, "CommonRuleSet") \o Group(w, "AmazonIpReputationList") \o Group(w, "KnownBadInputsRuleSet") \o Group(w, "SQLiRuleSet")
  \o Rate("block", "named", "ip", "all", w.l[1]) \o Rate("block", "named", "path", "all", w.l[3]) \o Rate("block", "anonymous", "ip", "all", w.l[2]) \o Rate("block", "anonymous", "path", "all", w.l[4])
  \o Rate("block", "anonymous", "ip", "slow", w.l[5])
RECURSIVE Flat(_, _)
Flat(Op(_), ws) == IF ws = <<>> THEN <<>> ELSE Op(Head(ws)) \o Flat(Op, Tail(ws))
Rules(i) == Flat(Counting, Effective(i)) \o Flat(Blocking, Effective(i))
Names(i) == {Rules(i)[j].name : j \in 1..Len(Rules(i))}
Sound(i) == Rules(i) # <<>> /\ Cardinality(Names(i)) = Len(Rules(i))
Refused == \/ \E w \in Range(stack.rules) \cup UNION {Range(stack.dists[i]) : i \in 1..Len(stack.dists)} : ~Good(w)
           \/ \E i \in 1..Len(stack.dists) : ~Sound(i)

\* a burst: a user from one address asks for the given paths in turn, n times in all
\* what comes of request k: 0 let through, otherwise the limit it ran into; hits[j][p]: how many the rule has seen for path p
In(r, b, p) == r.does # "group" /\ (r.who = "named") = (b.user = "named") /\ (r.where = "all" \/ p = "/slow/x")
Slot(r, p) == IF r.by = "ip" THEN "any" ELSE p
RECURSIVE Run(_, _, _, _, _)
Run(rs, b, k, hits, acc) ==
  IF k > b.n THEN acc
  ELSE LET p == b.paths[((k - 1) % Len(b.paths)) + 1]
           over(j) == In(rs[j], b, p) /\ hits[j][Slot(rs[j], p)] >= rs[j].lim
           stops == {j \in 1..Len(rs) : rs[j].does = "block" /\ over(j)}
           last == IF stops = {} THEN Len(rs) ELSE CHOOSE j \in stops : \A i \in stops : j <= i
           counted == Cardinality({j \in 1..last : rs[j].does = "count" /\ over(j)})
       IN Run(rs, b, k + 1, TLCEval([j \in 1..Len(rs) |-> IF j <= last /\ In(rs[j], b, p) THEN [hits[j] EXCEPT ![Slot(rs[j], p)] = @ + 1] ELSE hits[j]]),
              TLCEval([passed |-> acc.passed + (IF stops = {} THEN 1 ELSE 0), counted |-> acc.counted + counted, limits |-> acc.limits \cup (IF stops = {} THEN {} ELSE {rs[last].lim})]))
Burst(i, b) == LET rs == Rules(i) IN Run(TLCEval(rs), b, 1, TLCEval([j \in 1..Len(rs) |-> [p \in Range(b.paths) \cup {"any"} |-> 0]]), [passed |-> 0, counted |-> 0, limits |-> {}])
Excluded(g) == IF g = "CommonRuleSet" THEN {"NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"} ELSE {}
Stopped(i, g, rule) == \E j \in 1..Len(Rules(i)) : Rules(i)[j].does = "group" /\ Rules(i)[j].group = g /\ rule \notin Excluded(g) \cup {x[2] : x \in {x \in Rules(i)[j].without : x[1] = g}}

Init == stack \in Stacks /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Do(a) ==
  /\ act' = a /\ UNCHANGED stack
  /\ CASE a.op = "build" -> out' = [kind |-> "built", refused |-> Refused]
       [] a.op = "burst" -> ~Refused /\ a.d <= Len(stack.dists) /\ LET r == Burst(a.d, a.b) IN out' = [kind |-> "burst", passed |-> r.passed, counted |-> r.counted, limits |-> r.limits]
       [] OTHER -> ~Refused /\ a.d <= Len(stack.dists) /\ out' = [kind |-> "threat", stopped |-> Stopped(a.d, a.g, a.rule)]
Threats == {<<"CommonRuleSet", "GenericRFI_BODY">>, <<"CommonRuleSet", "GenericLFI_BODY">>, <<"AmazonIpReputationList", "List">>, <<"KnownBadInputsRuleSet", "Log4JRCE_BODY">>, <<"SQLiRuleSet", "SQLi_BODY">>}
Actions == {[op |-> "build"]} \cup {[op |-> "burst", d |-> d, b |-> b] : d \in {1, 2}, b \in Bursts} \cup {[op |-> "threat", d |-> d, g |-> t[1], rule |-> t[2]] : d \in {1, 2}, t \in Threats}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* a user gets no more through than the least limit for one address
Held == out.kind = "burst" => out.passed + out.counted >= 0 /\ (out.passed < act.b.n => out.limits # {}) /\ \A l \in out.limits : l <= act.b.n
Invariants == Held
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))

W(mode, l) == [mode |-> mode, l |-> l, groups |-> {}, without |-> {}]
E == None
AllW == {W("all", <<60, 50, E, E, E>>), W("all", <<60, 55, 52, 51, E>>), W("all", <<70, 60, E, E, 50>>), W("all", <<50, 60, E, 55, 52>>)}
BadW == {W("all", <<49, 50, E, E, E>>), W("all", <<50, 49, E, E, E>>), W("all", <<50, 50, 49, E, E>>), W("all", <<50, 50, E, 49, E>>), W("all", <<50, 50, E, E, 49>>), W("some", <<49, 50, E, E, E>>), W("some", <<50, 50, E, 49, E>>)}
SomeW == {[W("some", <<55, 50, E, 50, E>>) EXCEPT !.groups = {"SQLiRuleSet"}], [W("some", <<60, 60, 50, E, E>>) EXCEPT !.groups = {"CommonRuleSet", "KnownBadInputsRuleSet"}, !.without = {<<"CommonRuleSet", "GenericLFI_BODY">>}],
          [W("all", <<60, 60, E, E, E>>) EXCEPT !.without = {<<"SQLiRuleSet", "SQLi_BODY">>, <<"KnownBadInputsRuleSet", "Log4JRCE_BODY">>}]}
CountW == {W("count", <<5, E, E, E, E>>), W("count", <<E, 7, E, 3, E>>), W("count", <<60, 50, 40, 30, E>>)}
NoneW == W("count", <<E, E, E, E, E>>)
S(id, rules, dists) == [id |-> id, rules |-> rules, dists |-> dists]
One == W("all", <<60, 50, E, E, E>>)
McStacks == {S("s", <<w>>, <<<<>>, <<v>>>>) : w \in AllW, v \in AllW \cup SomeW} \cup {S("s", <<One>>, <<<<v, u>>>>) : v \in CountW, u \in AllW \cup SomeW} \cup {S("s", <<One>>, <<<<u, v>>>>) : v \in CountW, u \in AllW}
  \cup {S("s", <<w>>, <<<<One>>>>) : w \in BadW} \cup {S("s", <<>>, <<<<w>>>>) : w \in BadW \cup CountW \cup SomeW} \cup {S("s", <<One>>, <<<<v, u>>>>) : v \in AllW, u \in AllW \cup CountW}
  \cup {S("s", <<>>, <<<<>>>>), S("s", <<One>>, <<<<NoneW>>>>), S("s", <<NoneW>>, <<<<One>>>>), S("s", <<>>, <<<<One>>, <<>>>>)} \cup {S("s", <<>>, <<<<v, u>>>>) : v, u \in CountW}
B(user, paths, n) == [user |-> user, paths |-> paths, n |-> n]
McBursts == {B(u, p, 75) : u \in {"named", "empty", "absent"}, p \in {<<"/a">>, <<"/a", "/b">>, <<"/slow/x">>, <<"/slow/x", "/a">>}} \cup {B(u, p, 50) : u \in {"named", "absent"}, p \in {<<"/a">>, <<"/slow/x">>}} \cup {B(u, <<"/a", "/b", "/c">>, 120) : u \in {"named", "absent"}}
QuickBursts == {B("named", <<"/a", "/b">>, 75), B("named", <<"/a">>, 53), B("absent", <<"/a", "/slow/x">>, 72), B("absent", <<"/slow/x">>, 56), B("empty", <<"/a">>, 56)}
=============================================================================
