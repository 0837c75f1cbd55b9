--------------------------- MODULE RailMessagesMC ---------------------------
EXTENDS RailMessages
None == {}
Nothing == {<<>>}
T(l, r, s) == [lang |-> l, raw |-> r, shown |-> s]
NoPart == [on |-> FALSE, texts |-> <<>>, rules |-> NoRules]
Says(ts, r) == [on |-> TRUE, texts |-> ts, rules |-> r]
Fi == <<T("fi_FI", " hei ", "hei")>>
All3 == <<T("en_GB", "hello ", "hello"), T("fi_FI", "hei", "hei"), T("sv_SE", " hej", "hej"), T("fi_FI", "toinen", "toinen")>>
Blank == <<T("fi_FI", "  ", "")>>
BlankSv == <<T("fi_FI", "  ", ""), T("sv_SE", "hej", "hej"), T("de_DE", "hallo", "hallo")>>
OnEvent == [NoRules EXCEPT !.type = "ON_EVENT", !.event = "ARRIVING", !.times = 2]
OnSchedule == [NoRules EXCEPT !.type = "ON_SCHEDULE", !.times = 1, !.every = 5]
JustTimes == [NoRules EXCEPT !.every = 5, !.times = 0]
Repeat == [NoRules EXCEPT !.type = "REPEAT_EVERY", !.from = -60, !.to = 600, !.start = "08:05", !.end = "15:30", !.days = <<"SUNDAY", "MONDAY", "THURSDAY">>, !.times = 3, !.every = 10]
At == [NoRules EXCEPT !.type = "DELIVERY_AT", !.at = 75]
Now == [NoRules EXCEPT !.type = "NOW"]
When == [NoRules EXCEPT !.type = "WHEN", !.from = -60, !.to = 600, !.start = "00:30", !.end = "08:05", !.days = <<"SATURDAY", "FRIDAY">>]
Continuous == [NoRules EXCEPT !.type = "CONTINUOS_VISUALIZATION", !.from = -60, !.to = 600]
AllWeek == [NoRules EXCEPT !.type = "WHEN", !.days = Week]
M(i, v, o, t) == [id |-> i, ver |-> v, op |-> o, type |-> t, created |-> -60, from |-> -30, to |-> 30, train |-> IF t = "train" THEN 274 ELSE -1, date |-> IF t = "train" THEN "2026-02-03" ELSE "-",
                  points |-> <<"HKI", "PSL">>, audio |-> IF t = "train" THEN Says(All3, OnEvent) ELSE Says(Fi, Repeat), video |-> IF t = "train" THEN Says(Fi, NoRules) ELSE Says(All3, When)]
Junk == [M("junk", 1, "junk", "train") EXCEPT !.points = <<>>]

\* versions coming in any order, redelivered, taken back, failing anywhere
A1 == M("a", 1, "INSERT", "train")
A2 == [M("a", 2, "UPDATE", "train") EXCEPT !.points = <<"TPE">>, !.audio = NoPart]
A3 == [M("a", 3, "UPDATE", "train") EXCEPT !.to = 0]
B1 == M("b", 1, "INSERT", "general")
C1 == [M("b", 2, "UPDATE", "general") EXCEPT !.points = <<>>]
DA == M("a", 2, "DELETE", "train")
DB == M("b", 1, "DELETE", "general")
NoFault == {"-"}
Ones == {<<A1>>, <<A2>>, <<A3>>, <<B1>>, <<C1>>, <<DA>>, <<DB>>}
SomeOnes == {<<A1>>, <<A2>>, <<A3>>, <<DA>>, <<B1, A1>>, <<C1>>}
Twos == {<<A1, B1>>, <<A1, A1>>, <<Junk, B1>>, <<A1, Junk, DA>>, <<B1, A2>>, <<DA, A2>>, <<C1, DB>>}
AllFaults == {"-", "connect", "begin", "main", "stations", "audio", "video", "delete", "commit"}
WithLetters == {"-", "main", "video"}
BeforeFault == {<<>>, <<A1>>, <<B1, A1>>}
SomeWaits == {29, 30, 31}

\* everything a message can carry
TrainParts == {M("a", 1, "INSERT", "train"), [M("a", 1, "INSERT", "train") EXCEPT !.audio = NoPart], [M("a", 1, "INSERT", "train") EXCEPT !.video = NoPart], [M("a", 1, "UPDATE", "train") EXCEPT !.audio = NoPart, !.video = NoPart],
               [M("a", 1, "INSERT", "train") EXCEPT !.audio = Says(BlankSv, OnSchedule)], [M("a", 1, "INSERT", "train") EXCEPT !.audio = Says(Blank, OnSchedule), !.video = Says(Blank, NoRules)],
               [M("a", 1, "INSERT", "train") EXCEPT !.audio = Says(Fi, JustTimes)], [M("a", 1, "INSERT", "train") EXCEPT !.audio = Says(Fi, NoRules)], [M("a", 1, "INSERT", "train") EXCEPT !.points = <<>>],
               [M("a", 7, "INSERT", "train") EXCEPT !.points = <<"KJ">>, !.train = 1, !.date = "2026-02-04", !.created = -70, !.from = 0, !.to = 1]}
GeneralParts == {[M("g", 1, "INSERT", "general") EXCEPT !.audio = a, !.video = v] : a \in {NoPart, Says(Fi, Repeat), Says(All3, At), Says(Fi, Now), Says(BlankSv, Now), Says(Blank, Now), Says(<<>>, Now)}, v \in {NoPart, Says(All3, When), Says(Fi, Continuous), Says(Fi, AllWeek), Says(BlankSv, NoRules)}}
Parts == {<<m>> : m \in TrainParts \cup GeneralParts}

\* a board of messages to be asked about
Board == {<<M("t1", 1, "INSERT", "train"), [M("t2", 1, "INSERT", "train") EXCEPT !.date = "2026-02-04", !.points = <<"TPE", "HKI">>, !.created = -70],
            [M("t3", 1, "INSERT", "train") EXCEPT !.train = 2741, !.points = <<"TPE">>, !.created = 0], [M("t4", 1, "INSERT", "train") EXCEPT !.from = 1, !.to = 90, !.created = -10],
            [M("t5", 1, "INSERT", "train") EXCEPT !.from = -90, !.to = 0], [M("t6", 1, "INSERT", "train") EXCEPT !.points = <<"HKI">>], [M("t6", 2, "UPDATE", "train") EXCEPT !.points = <<"PSL">>, !.created = -50],
            M("t7", 1, "INSERT", "train"), [M("t7", 2, "UPDATE", "train") EXCEPT !.from = 40, !.to = 50, !.created = -40], M("t8", 1, "INSERT", "train"), M("t8", 1, "DELETE", "train"),
            M("g1", 1, "INSERT", "general"), [M("g2", 1, "INSERT", "general") EXCEPT !.points = <<"TPE">>, !.from = 0, !.to = 1], [M("g3", 1, "INSERT", "general") EXCEPT !.from = 10, !.to = 20, !.created = -5],
            [M("g4", 1, "INSERT", "general") EXCEPT !.points = <<>>, !.created = -71]>>}
Q(t, d, s, g) == [train |-> t, date |-> d, station |-> s, general |-> g]
SomeQueries == {Q(t, d, s, g) : t \in {"", "274", "2741"}, d \in {"", "2026-02-03", "2026-02-04"}, s \in {"", "HKI", "TPE"}, g \in {"", "true"}}
OddQueries == {Q("0", "", "", ""), Q("-1", "", "", ""), Q("abc", "", "", ""), Q("1", "", "", "false"), Q("", "20260203", "", ""), Q("", "2026-2-3", "", ""), Q("", "", "H", ""), Q("", "", "", "maybe"), Q("", "", "", "True"), Q("", "", "XYZ", "false")}
AllQueries == SomeQueries \cup OddQueries
FewQueries == {Q("", "", "", ""), Q("274", "", "", "false"), Q("", "", "HKI", ""), Q("", "2026-02-04", "", ""), Q("", "", "", "true"), Q("x", "", "", "")}
AllAfters == {[q |-> q, date |-> d, active |-> a] : q \in FewQueries, d \in {"2026-02-03", "2026-02-03T12:00Z", "2026-02-03T11:00:00.000Z", "2026-02-03T12:50:00+02:00", "2026-02-04", "yesterday"}, a \in {"", "true", "false", "maybe"}}
QueryFaults == {"-", "connect", "query"}
AllUploads == {[body |-> b, down |-> d] : b \in {"valid", "invalid", "empty"}, d \in BOOLEAN}
L(t, e, m) == [type |-> t, errors |-> e, message |-> m]
AllLetters == {[letters |-> <<L("ROSM", e, m)>>, fails |-> f] : e \in {"wrong", "{\"code\":\"x\"}", "a \\ b"}, m \in {"{\"a\":1}", "plain"}, f \in 0..2} \cup {[letters |-> <<L("SM", "wrong", "one"), L("ROSM", "wrong", "two")>>, fails |-> f] : f \in 0..1}
              \cup {[letters |-> <<L("ROSM", "wrong", "one"), L("ROSM", "wrong", "two"), L("ROSM", "wrong", "three")>>, fails |-> f] : f \in 0..1}
=============================================================================
