----------------------------- MODULE LoggingMC -----------------------------
EXTENDS Logging
AllConfigs == {[name |-> n, rt |-> r] : n \in {"given", "env", "none"}, r \in {"given", "env", "none"}}
SomeConfigs == {[name |-> "given", rt |-> "env"], [name |-> "env", rt |-> "given"], [name |-> "none", rt |-> "none"]}
M(method, message, fields, error, stack) == [method |-> method, message |-> message, fields |-> fields, error |-> error, stack |-> stack]
L(level, m) == [op |-> "log", level |-> level, m |-> m]
Values == {"num", "zero", "neg", "true", "false", "null", "undefined", "date", "baddate", "bigint", "nan", "str", "empty", "eq", "nl", "utf"}
Keys == {"customFoo", "customFooCount", "customURL", "customX", "customCustomId", "customId2", "type", "tookMs"}
Levels == {"INFO", "WARN", "ERROR"}
Messages == {None, "", "something happened", "a.b did it", "did foo=1 and x=2", "uRL=1 a.bc", "a.B happened", "type= tookMs=", "customFoo=1", "fooCount="}
LinesQuick == {L(l, M("a.b", m, <<>>, None, None)) : l \in Levels, m \in Messages}
   \cup {L("INFO", M("Long.methodName", m, <<<<k, v>>>>, None, None)) : m \in {None, "something happened"}, k \in Keys, v \in Values}
   \cup {L("WARN", M("a.b", m, <<<<k, "str">>>>, None, None)) : m \in Messages, k \in Keys}
   \cup {L("INFO", M("a.b", m, <<<<"customFoo", v>>, <<"tookMs", "zero">>, <<"customX", "eq">>>>, None, None)) : m \in Messages, v \in Values}
   \cup {L(l, M("a.b", m, f, e, s)) : l \in Levels, m \in {None, "something happened"}, f \in {<<>>, <<<<"customId2", "num">>>>},
         e \in {None, "undefined", "nothing", "error", "typeerror", "own", "string", "object", "circular", "bigint", "shared"}, s \in {None, "own stack"}}
LinesDeep == LinesQuick \cup {L(l, M("a.b", m, <<<<k, v>>, <<k2, v2>>>>, None, None)) : l \in {"INFO"}, m \in Messages, k \in {"customFoo", "type"}, v \in Values, k2 \in Keys \ {"customFoo", "type"}, v2 \in Values}
AllDebugs == {"string", "object", "circular", "bigint", "num", "undefined"}
AllExceptions == {"error", "typeerror", "own", "string", "object", "circular", "bigint", "shared", "undefined"}
AllLeads == {[target |-> t, extra |-> x, lead |-> l, process |-> p] : t \in {"tgt", "customTgt"}, x \in {None, "customFoo", "customName", "customTarget"},
             l \in {None, "0", "5", "-3", "frac", "nan", "big", "inf"}, p \in {None, "0", "5", "-3", "frac", "nan", "big", "inf"}}
X(fn, from, n, max) == [fn |-> fn, from |-> from, n |-> n, max |-> max]
AllTexts == {X(fn, f, n, m) : fn \in {"end", "middle"}, f \in {1, 5}, n \in 0..60, m \in {0, 1, 2, 5, 10, 12, 20}}
   \cup {X(fn, 3, n, -1) : fn \in {"end", "middle"}, n \in {0, 1, 999, 1000, 1001, 1019, 1020, 1021, 1022, 1023, 1024, 1040, 1090}}
   \cup {X(fn, 3, n, 100) : fn \in {"end", "middle"}, n \in 95..135} \cup {X(fn, 1, n, 50) : fn \in {"end", "middle"}, n \in {148, 149, 150, 151, 172, 1050, 1051}}
S(k, v) == [op |-> "set", k |-> k, v |-> v]
AllSettings == {S("log", "default"), S("log", "json"), S("log", "custom"), S("err", "answer"), S("err", "rethrow")} \ {S("log", "default")}
=============================================================================
