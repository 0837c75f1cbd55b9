------------------------------ MODULE WiringMC -------------------------------
EXTENDS Wiring
S(id, kind, count, unit, fn) == [id |-> id, name |-> "rule-" \o id, kind |-> kind, count |-> count, unit |-> unit, fn |-> fn]
SomeSchedules == {S("a", "minute", 0, "-", "f1"), S("b", "minutes", 1, "-", "f1"), S("c", "minutes", 12, "-", "f2"), S("d", "minutes", 60, "-", "-"), S("e", "minutes", 90, "-", "f1"), S("f", "hour", 0, "-", "f2"),
                  S("g", "day", 0, "-", "f1"), S("h", "every", 2, "hour", "f2"), S("i", "every", 3, "day", "-"), S("j", "cron", 0, "cron(0 3 ? * MON *)", "f1"), S("k", "minute", 0, "-", "-"), S("l", "hour", 0, "-", "-"), S("m", "day", 0, "-", "f2"),
                  S("n", "every", 5, "minute", "f1"), S("o", "minutes", 1440, "-", "f1"), S("p", "minutes", 4321, "-", "f2")}
SomeFindings == {[source |-> s, type |-> t, compliance |-> c, workflow |-> w, severity |-> v] : s \in {"aws.securityhub", "aws.config"}, t \in {"Security Hub Findings - Imported", "Security Hub Insight Results"},
                   c \in {"FAILED", "PASSED", "WARNING", "NOT_AVAILABLE"}, w \in {"NEW", "NOTIFIED", "RESOLVED", "SUPPRESSED"}, v \in {"INFORMATIONAL", "LOW", "MEDIUM", "HIGH", "CRITICAL"}}
SomeGrants == {[id |-> w \o who \o e \o ToString(Len(as)) \o ToString(Len(rs)), way |-> w, who |-> who, effect |-> e, actions |-> as, resources |-> rs] :
                 w \in {"oac"}, who \in {"dist-1", "dist-2"}, e \in {"-", "allow", "deny"}, as \in {<<>>, <<"s3:PutObject">>, <<"s3:GetObject", "s3:ListBucket">>}, rs \in {<<>>, <<"public">>, <<"bucket", "one">>}}
              \cup {[id |-> w \o who \o e \o ToString(Len(as)) \o ToString(Len(rs)), way |-> w, who |-> who, effect |-> e, actions |-> as, resources |-> rs] :
                 w \in {"oai"}, who \in {"user-1", "user-2"}, e \in {"-", "allow", "deny"}, as \in {<<>>, <<"s3:PutObject">>, <<"s3:GetObject", "s3:ListBucket">>}, rs \in {<<>>, <<"public">>, <<"bucket", "one">>}}
FewGrants == {g \in SomeGrants : Len(g.actions) # 1 \/ Len(g.resources) # 1 \/ g.effect = "-"}
PairGrants == {g \in SomeGrants : Len(g.actions) # 1 /\ Len(g.resources) = 0}
SomeSubs == {[id |-> "a", via |-> "stack", fns |-> <<"f1", "f2">>, to |-> "arn:log"], [id |-> "b", via |-> "stack", fns |-> <<"f1", "f2">>, to |-> "-"], [id |-> "c", via |-> "one", fns |-> <<"f1">>, to |-> "arn:other"],
             [id |-> "d", via |-> "one", fns |-> <<"f2">>, to |-> "-"], [id |-> "e", via |-> "stack", fns |-> <<>>, to |-> "arn:log"], [id |-> "f", via |-> "stack", fns |-> <<"f2">>, to |-> "arn:log"], [id |-> "g", via |-> "null", fns |-> <<"f1">>, to |-> "-"]}
SomePlans == {[id |-> "a", kind |-> "plain", name |-> "First plan", value |-> "-"], [id |-> "b", kind |-> "named", name |-> "Thing", value |-> "-"], [id |-> "c", kind |-> "named", name |-> "Other", value |-> "a-value-of-20-letters"],
              [id |-> "d", kind |-> "plain", name |-> "Second plan", value |-> "-"]}
SomeGroups == {[id |-> s \o f \o ToString(d), stack |-> s, short |-> "given", fn |-> f, days |-> d] : s \in {"digitraffic", "plain"}, f \in {"Fn", "Other-fn"}, d \in {0, 7, 180}}
SomeDocs == {[id |-> "a", kind |-> "query", name |-> "since", text |-> "From when \"on\"", tags |-> <<>>], [id |-> "b", kind |-> "tags", name |-> "b", text |-> "-", tags |-> <<"T1", "T2">>],
             [id |-> "c", kind |-> "summary", name |-> "c", text |-> "Sums up", tags |-> <<"T2">>], [id |-> "d", kind |-> "object", name |-> "d", text |-> "op", tags |-> <<>>], [id |-> "e", kind |-> "tags", name |-> "e", text |-> "-", tags |-> <<>>]}
Nothing == {}
=============================================================================
