----------------------------- MODULE FunctionsMC -----------------------------
EXTENDS Functions
NoReadings == {}
R(m, v) == [metric |-> m, v |-> v]
SomeReadings == {R("Duration", v) : v \in {0, 1, 849, 850, 851, 999, 1000}} \cup {R("Errors", v) : v \in {0, 1, 3, 4}} \cup {R("Throttles", v) : v \in {0, 1, 11}}
NoNames == {}
AllNames == {"update-things", "get-v2-sites", "plain", "snake_case_name", "update3things"}
AllReadings == {R("Duration", v) : v \in {0, 1, 500, 849, 850, 851, 999, 1000}} \cup {R("Errors", v) : v \in {0, 1, 2, 3, 4}} \cup {R("Throttles", v) : v \in {0, 1, 10, 11}}
=============================================================================
