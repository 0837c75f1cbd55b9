------------------------------- MODULE Secrets -------------------------------
(* Secrets read through holders that cache them, read directly, or read only when    *)
(* the environment lacks a value.  The secret store may rotate the secret, fail or   *)
(* answer nonsense at any time; requests overlap and are answered in any order.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Readers,      \* which readers take part
          Versions, Statuses, Instants, Slots, MaxFetch

VARIABLES now, remote, cache, req, env, fetches, out, act
vars == <<now, remote, cache, req, env, fetches, out, act>>
View == <<now, remote, cache, req, env, fetches>>

TTL == 300000
\* ---- the secret as stored, by version
Keys1 == {"username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host", "p.user", "p.key", "p.empty", "pq.user", "p.p.user", "up.user", "user", "key", "TOKEN"}
\* the fifth version has values that are there but empty
Value(v, k) == IF k = "p.empty" \/ (v = 5 /\ k \in {"password", "TOKEN", "user"}) THEN "" ELSE k \o "#" \o ToString(v)
Missing(v) == CASE v = 2 -> {"password", "p.key", "TOKEN"} [] v = 4 -> {"proxy_ro_host", "p.user"} [] OTHER -> {}
Secret(v) == [k \in Keys1 \ Missing(v) |-> Value(v, k)]

\* ---- readers
Prefix(r) == CASE r \in {"prefixed", "directprefixed"} -> "p" [] OTHER -> ""
Expected(r) == CASE r = "prefixed" -> {"user", "key"}
                 [] r = "proxy" -> {"username", "password", "proxy_host", "proxy_ro_host"}
                 [] r = "rds" -> {"username", "password", "host", "ro_host"}
                 [] OTHER -> {}
Caching == {"plain", "prefixed", "proxy", "rds"}
Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Strip(s, p) == IF p = "" THEN s
               ELSE LET q == p \o "."
                        ks == {k \in DOMAIN s : Starts(k, q) /\ s[k] # ""}
                    IN [n \in {SubSeq(k, Len(q) + 1, Len(k)) : k \in ks} |-> s[q \o n]]
NoEnv == [DB_USER |-> "-", DB_PASS |-> "-", DB_URI |-> "-", DB_RO_URI |-> "-"]
EnvOf(r, s) == [DB_USER |-> s["username"], DB_PASS |-> s["password"],
                DB_URI |-> IF r = "proxy" THEN s["proxy_host"] ELSE s["host"],
                DB_RO_URI |-> IF r = "proxy" THEN s["proxy_ro_host"] ELSE s["ro_host"]]

Init == /\ now = 0 /\ remote = [status |-> "ok", ver |-> 1]
        /\ cache = [r \in Readers |-> [ver |-> 0, exp |-> -1]]
        /\ req = [s \in Slots |-> "-"] /\ env = NoEnv /\ fetches = 0
        /\ out = [kind |-> "none"] /\ act = [op |-> "init"]

\* what a reader gets out of version v
Result(r, v) ==
  LET s == Secret(v) p == Strip(s, Prefix(r)) IN
  IF r = "env" THEN (IF "TOKEN" \in DOMAIN s THEN [kind |-> "value", v |-> [value |-> s["TOKEN"]]] ELSE [kind |-> "fails", why |-> "missing"])
  ELSE IF ~(Expected(r) \subseteq DOMAIN p) THEN [kind |-> "fails", why |-> "missing"]
  ELSE IF r \in {"proxy", "rds"} THEN [kind |-> "set"]
  ELSE [kind |-> "value", v |-> p]
Serve(r, v) == /\ out' = Result(r, v)
               /\ env' = IF Result(r, v).kind = "set" THEN EnvOf(r, Secret(v)) ELSE env

\* a read is served from a cache that has not run out, and asks the store otherwise
Get(r, s) ==
  /\ req[s] = "-" /\ \A x \in Slots : x < s => req[x] # "-"
  /\ UNCHANGED <<now, remote, cache>>
  /\ IF r \in Caching /\ cache[r].exp >= now
     THEN Serve(r, cache[r].ver) /\ UNCHANGED <<req, fetches>>
     ELSE /\ req' = [req EXCEPT ![s] = r] /\ fetches' = fetches + 1
          /\ out' = [kind |-> "pending"] /\ env' = env
\* a value found in the environment is never asked from the store
EnvGet(v) == /\ "env" \in Readers /\ out' = [kind |-> "value", v |-> [value |-> v]]
          /\ UNCHANGED <<now, remote, cache, req, env, fetches>>
\* the store answers
Answer(s) ==
  /\ req[s] # "-"
  /\ req' = [req EXCEPT ![s] = "-"]
  /\ UNCHANGED <<now, remote, fetches>>
  /\ IF remote.status = "ok"
     THEN /\ cache' = IF req[s] \in Caching THEN [cache EXCEPT ![req[s]] = [ver |-> remote.ver, exp |-> now + TTL]] ELSE cache
          /\ Serve(req[s], remote.ver)
     ELSE cache' = cache /\ env' = env /\ out' = [kind |-> "fails", why |-> remote.status]
Rotate(v) == /\ v # remote.ver /\ remote' = [remote EXCEPT !.ver = v] /\ out' = [kind |-> "none"]
             /\ UNCHANGED <<now, cache, req, env, fetches>>
Status(x) == /\ x # remote.status /\ remote' = [remote EXCEPT !.status = x] /\ out' = [kind |-> "none"]
             /\ UNCHANGED <<now, cache, req, env, fetches>>
Advance(ms) == /\ now' = now + ms /\ out' = [kind |-> "none"] /\ UNCHANGED <<remote, cache, req, env, fetches>>

Do(a) == CASE a.op = "get" -> Get(a.r, a.s) /\ act' = a
           [] a.op = "envget" -> EnvGet(a.v) /\ act' = a
           [] a.op = "answer" -> Answer(a.s) /\ act' = [op |-> "answer", s |-> a.s, status |-> remote.status, secret |-> Secret(remote.ver)]
           [] a.op = "rotate" -> Rotate(a.ver) /\ act' = a
           [] a.op = "status" -> Status(a.status) /\ act' = a
           [] a.op = "advance" -> Advance(a.ms) /\ act' = a
Actions == [op : {"get"}, r : Readers, s : Slots] \cup [op : {"envget"}, v : {"from environment", ""}] \cup [op : {"answer"}, s : Slots]
      \cup [op : {"rotate"}, ver : Versions] \cup [op : {"status"}, status : Statuses] \cup {[op |-> "advance", ms |-> t - now] : t \in {t \in Instants : t > now}}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
Small == fetches <= MaxFetch

\* a cached version is never served once its time to live has gone
Fresh == \A r \in Readers : cache[r].exp <= now + TTL
\* a failing or wordless store never takes away or changes what is cached
FailureKeeps == [][\A r \in Readers : cache'[r] # cache[r] => remote.status = "ok" /\ cache'[r].ver = remote.ver /\ cache'[r].exp = now + TTL]_vars
\* credentials are set together, from one version
Whole == env = NoEnv \/ \E v \in Versions, r \in {"proxy", "rds"} : Missing(v) \cap {"password", "proxy_ro_host"} \subseteq {"proxy_ro_host"} /\ (Result(r, v).kind = "set" /\ env = EnvOf(r, Secret(v)))
Invariants == Fresh /\ Whole
Obs == [out |-> out, env |-> env, fetches |-> fetches]
Key == View
Emit == PrintT("@@" \o ToJson([s |-> Key, a |-> act', t |-> Key', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
