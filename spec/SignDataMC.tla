----------------------------- MODULE SignDataMC ------------------------------
EXTENDS SignData
K == "KRM000001"
T == "VME/TIO01K502"
U == "VMS000009"
TwoSigns == <<K, T>>
ThreeSigns == <<K, T, U>>
None == {}
\* ---- starts
Empty == [devices |-> NoDevices, texts |-> NoTexts]
Live1(ds) == [d \in Devs |-> IF d \in ds THEN [state |-> "live", v |-> 1] ELSE [state |-> "none", v |-> 0]]
Both == [devices |-> Live1({K, T}), texts |-> NoTexts]
Gone1 == [devices |-> [d \in Devs |-> IF d = T THEN [state |-> "gone", v |-> 1] ELSE [state |-> "live", v |-> 1]],
          texts |-> [NoTexts EXCEPT ![<<"2", "SITUATION">>] = [d \in Devs |-> [v |-> IF d = T THEN "plain" ELSE "other", at |-> 0]]]]
Bare == [devices |-> Live1({K, T}), texts |-> [s \in Slots |-> [d \in Devs |-> IF s[1] = "2" \/ d = U THEN Nothing ELSE [v |-> "bare", at |-> 0]]]]
LegacyStarts == {Empty, Both, Gone1}
LegacyStartsAll == {Empty, Both, Gone1, Bare}
UploadStarts == {Both, Bare}
InboxStarts == {Both}
StateStarts == {Empty, Gone1}
\* ---- the list of signs
E(d, v) == [dev |-> d, v |-> v]
M(l) == [kind |-> "list", list |-> l, fault |-> FALSE]
MF(l) == [kind |-> "list", list |-> l, fault |-> TRUE]
FewLists == {M(<<E(K, 1), E(T, 1)>>), M(<<E(K, 2)>>)}
SomeLists == FewLists \cup {M(<<>>), M(<<E(T, 2), E(K, 1), E(T, 1)>>)}
AllLists == SomeLists \cup {M(<<E(U, 1)>>), M(<<E(T, 1)>>), M(<<E(T, 2), E(K, 2), E(U, 2)>>), MF(<<E(K, 2), E(U, 1)>>), MF(<<E(K, 2), E(T, 2)>>), [kind |-> "nothing", list |-> <<>>, fault |-> FALSE], [kind |-> "malformed", list |-> <<>>, fault |-> FALSE]}
\* ---- states
X(d, n, l) == [dev |-> d, v |-> n, lines |-> l]
S(l, f) == [kind |-> "list", list |-> l, fault |-> f]
AllStates == {S(<<>>, 0), S(<<X(K, 1, 0)>>, 0), S(<<X(K, 1, 2), X(T, 2, 1)>>, 0), S(<<X(T, 3, 3)>>, 0), S(<<X(K, 2, 1), X(K, 1, 0)>>, 0), S(<<X(K, 1, 2), X(T, 2, 1)>>, 2), S(<<X(K, 1, 2), X(T, 2, 1)>>, 1), S(<<X(T, 2, 1)>>, 1),
   [kind |-> "nothing", list |-> <<>>, fault |-> 0], [kind |-> "malformed", list |-> <<>>, fault |-> 0]}
\* ---- messages over the older interface
I(d, v) == [dev |-> d, v |-> v]
B(l) == [kind |-> "message", items |-> l, fault |-> 0]
AllBodies == {B(<<I(K, v)>>) : v \in {"plain", "dollar", "record", "marks"}} \cup {B(<<I(T, v)>>) : v \in Nights \cup {"before", "end", "end2", "before2", "foreign"}}
   \cup {B(<<>>), B(<<I(T, "plain"), I(K, "first")>>), B(<<I(K, "plain"), I(T, "plain"), I(K, "other")>>), B(<<I(U, "plain"), I(K, "other")>>), B(<<I(K, "other"), I(T, "bad")>>),
        [kind |-> "cut", items |-> <<I(K, "plain"), I(T, "other")>>, fault |-> 0], [kind |-> "cut", items |-> <<I(T, "plain")>>, fault |-> 0],
        [B(<<I(K, "other"), I(T, "other")>>) EXCEPT !.fault = 2], [B(<<I(K, "other"), I(T, "other")>>) EXCEPT !.fault = 3], [B(<<I(K, "plain")>>) EXCEPT !.fault = 1]}
   \cup {[kind |-> k, items |-> <<I(K, "other")>>, fault |-> 0] : k \in {"nothing", "noxml", "nopayload", "twopayloads"}}
\* ---- messages over the newer interface
Vms == "VARIABLE_MESSAGE_SIGN_DATEX_XML"
Meta == "VARIABLE_MESSAGE_SIGN_METADATA_XML"
N(type, ver, kind, items) == [type |-> type, ver |-> ver, kind |-> kind, whole |-> TRUE, items |-> items]
Sit(ver, items) == N(Vms, ver, "SITUATION", items)
Bad(e) == [e EXCEPT !.whole = FALSE]
L(l) == [kind |-> "list", list |-> l, fault |-> "none"]
SignUploads == {L(<<Sit("2", <<I(K, "plain"), I(T, "first")>>)>>), L(<<Sit("5", <<I(T, "dollar"), I(K, "record")>>)>>), L(<<Sit("7", <<I(K, "other")>>), Sit("5", <<I(K, "other"), I(T, "last2")>>), Sit("2", <<I(T, "end")>>)>>),
   L(<<Sit("7", <<I(K, "plain"), I(T, "foreign"), I(K, "dollar")>>)>>), L(<<Bad(Sit("5", <<I(K, "plain")>>)), Sit("7", <<I(T, "first2")>>), Bad(Sit("2", <<I(K, "other"), I(T, "plain")>>))>>),
   L(<<N(Vms, "5", "CONTROLLER_STATUS", <<I(K, "plain"), I(T, "dollar")>>)>>), L(<<N(Vms, "7", "CONTROLLER_STATUS", <<I(T, "other")>>), N(Meta, "5", "CONTROLLER", <<I(T, "plain"), I(K, "other")>>)>>),
   L(<<N(Meta, "7", "CONTROLLER", <<I(K, "dollar"), I(T, "plain")>>), N(Meta, "7", "CONTROLLER_STATUS", <<I(K, "other")>>)>>)}
SignUploadsAll == SignUploads \cup {L(<<Sit("5", <<I(T, "before"), I(U, "plain")>>)>>), L(<<Sit("2", <<I(K, "dollar")>>), Sit("2", <<I(K, "marks"), I(T, "last")>>)>>), L(<<N(Meta, "5", "CONTROLLER", <<I(K, "dollar")>>), Bad(N(Vms, "7", "CONTROLLER_STATUS", <<I(T, "plain")>>))>>), L(<<Sit("2", <<I(K, "bad"), I(T, "other")>>)>>), L(<<Sit("5", <<I(T, "bad"), I(K, "other")>>)>>)}
BoxUploads == {L(<<Sit("2", <<I(K, "plain")>>)>>), L(<<N("SOMETHING_ELSE", "2", "SITUATION", <<I(K, "other")>>), Bad(Sit("7", <<I(T, "plain")>>))>>), [L(<<Sit("5", <<I(K, "plain")>>)>>) EXCEPT !.fault = "db"], [L(<<Sit("7", <<I(K, "plain")>>)>>) EXCEPT !.fault = "queue"]}
   \cup {[kind |-> k, list |-> <<>>, fault |-> "none"] : k \in {"nothing", "text", "empty", "array", "extra", "missing", "number", "extrainside"}}
BoxWaits == {717, 718, 719, 720, 1440, 10080}
BoxWaitsAll == {717, 718, 719, 720, 721, 1440, 8640, 10080}
One == {1}
=============================================================================
