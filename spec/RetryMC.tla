------------------------------ MODULE RetryMC ------------------------------
EXTENDS Retry
K(v, r, m, p, d) == [via |-> v, retries |-> r, mode |-> m, pred |-> p, delay |-> d]
\* one caller, every kind of call
LongConfigs == {K("default", 0, "no", "always", "none"), K("request", 0, "no", "always", "none"), K("retry", 7, "all", "always", "lin"), K("retry", 2, "last", "always", "one")}
OneConfigs == [via : {"retry"}, retries : {-2, 0, 1, 2}, mode : {"all", "last", "no"}, pred : {"always", "status", "never", "notimeout"}, delay : {"none", "exp", "lin", "neg"}]
   \cup {K("retry", r, "last", "always", "none") : r \in {NAN, INFTY, NEGINF, 101, 100, 5000}}
\* what is tried again, by status
StatusConfigs == {K("retry", 1, m, "status", "none") : m \in {"all", "last", "no"}} \cup {K("request", 0, "no", "always", "none")}
\* two callers, interleaved
TwoConfigs == {K("retry", 1, "last", "always", "exp"), K("retry", 2, "all", "status", "lin"), K("retry", 0, "no", "always", "none")}
TwoConfigsDeep == TwoConfigs \cup {K("request", 0, "no", "always", "none"), K("retry", 2, "last", "notimeout", "exp")}
TwoAttempts == \A c \in Clients : st[c].attempts < 3
FewAttempts == \A c \in Clients : st[c].attempts < 8
=============================================================================
