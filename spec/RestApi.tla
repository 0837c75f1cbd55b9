------------------------------- MODULE RestApi --------------------------------
(* A REST API as the helpers set it up: who may call it (addresses, API keys), what   *)
(* it answers to paths it does not have and to the preflight requests of browsers,    *)
(* what it documents and which of its keys it exports.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,             \* "gate", "docs" or "export"
          Makers,           \* "class" and/or "function"
          IpSettings,       \* of {"all", "two", "none"}
          MaxPaths, MaxKeys
VARIABLES maker, ips, docs, paths, keys, parts, out, act
vars == <<maker, ips, docs, paths, keys, parts, out, act>>
View == <<maker, ips, docs, paths, keys, parts>>

\* the paths that can be added: by hand, with preflight support for the tree below, below that, and with preflight support afterwards
AllPaths == <<"/a", "/a/b", "/a/b/{c}", "/d">>
Parent == ("/a" :> "-") @@ ("/a/b" :> "/a") @@ ("/a/b/{c}" :> "/a/b") @@ ("/d" :> "-")
PathSet == {AllPaths[i] : i \in 1..4}
HasPath(p) == p \in DOMAIN paths
Cors(p) == p \in {"/a/b", "/a/b/{c}", "/d"}

Init == /\ maker \in Makers /\ ips \in IpSettings /\ docs \in (IF Mode = "docs" THEN {"on", "off", "default"} ELSE {"default"})
        /\ paths = [x \in {} |-> ""] /\ keys = <<>> /\ parts = <<>> /\ out = "none" /\ act = [op |-> "init"]

\* GET and HEAD with or without the need of a key; POST with a key of its own
Resource(p, key) == /\ ~HasPath(p) /\ Cardinality(DOMAIN paths) < MaxPaths /\ (Parent[p] = "-" \/ HasPath(Parent[p]))
                    /\ (maker # "function" \/ p \in {"/a"}) /\ Mode # "export"
                    /\ paths' = (p :> key) @@ paths /\ out' = "added" /\ UNCHANGED <<maker, ips, docs, keys, parts>>
Plan(style, nm) == /\ Len(keys) < MaxKeys /\ maker # "function" /\ Mode # "docs" /\ (\A i \in 1..Len(keys) : keys[i].nm # nm)
                   /\ keys' = Append(keys, [style |-> style, nm |-> nm])
                   /\ out' = [keyName |-> IF style = "old" THEN "generated" ELSE nm \o " API Key", plan |-> IF style = "old" THEN nm ELSE nm \o " API Usage Plan",
                              value |-> IF style = "valued" THEN "secret-value" ELSE "generated", stage |-> "this API's", distinct |-> TRUE]
                   /\ UNCHANGED <<maker, ips, docs, paths, parts>>

\* ---------------------------------------------------------------- requests
Addresses == <<"10.1.1.1", "192.168.5.5", "8.8.8.8">>
Verbs == <<"GET", "HEAD", "OPTIONS", "POST">>
KeysSent == <<"none", "right", "second", "stranger">>
Allowed(ip) == ips = "all" \/ (ips \in {"two", "many"} /\ ip \in {"10.1.1.1", "192.168.5.5"})
KeyGood(k) == (k = "right" /\ Len(keys) >= 1) \/ (k = "second" /\ Len(keys) >= 2)
Answer(ip, p, v, k) ==
  IF ~Allowed(ip) THEN 403
  ELSE IF ~HasPath(p) \/ (v = "OPTIONS" /\ ~Cors(p)) \/ v = "POST" THEN 404
  ELSE IF v = "OPTIONS" THEN 204
  ELSE IF paths[p] = "key" /\ ~KeyGood(k) THEN 403 ELSE 200
Probed == Append(AllPaths, "/nothing")
Table == [a \in 1..3 |-> [p \in 1..5 |-> [v \in 1..4 |-> [k \in 1..4 |-> Answer(Addresses[a], Probed[p], Verbs[v], KeysSent[k])]]]]
Probe == /\ Mode = "gate" /\ UNCHANGED <<maker, ips, docs, paths, keys, parts>>
         /\ out' = [table |-> Table, notFound |-> "Not Found", preflight |-> "any origin; Content-Type,X-Amz-Date,Authorization,X-Api-Key,X-Amz-Security-Token,Digitraffic-User; OPTIONS,GET,HEAD", endpoint |-> IF maker = "configured" THEN "EDGE" ELSE "REGIONAL", logging |-> IF maker = "configured" THEN "INFO" ELSE "ERROR",
                     compression |-> IF maker = "configured" THEN 1000 ELSE 0, host |-> IF maker = "function" THEN "-" ELSE "this API in its region"]

\* ---------------------------------------------------------------- documentation and models
PartKinds == {"method", "query", "path", "oldMethod", "oldQuery"}
Doc(p, k) == CASE k = "method" -> [type |-> "METHOD", path |-> p, name |-> "-", summary |-> "Sums up", description |-> "-", tags |-> <<"T1", "T2">>, old |-> FALSE]
               [] k = "oldMethod" -> [type |-> "METHOD", path |-> p, name |-> "-", summary |-> "Sums up. Gone soon", description |-> "-", tags |-> <<"T1", "T2">>, old |-> TRUE]
               [] k = "query" -> [type |-> "QUERY_PARAMETER", path |-> p, name |-> "q", summary |-> "-", description |-> "Says it", tags |-> <<>>, old |-> FALSE]
               [] k = "oldQuery" -> [type |-> "QUERY_PARAMETER", path |-> p, name |-> "oq", summary |-> "-", description |-> "Says it. Gone soon", tags |-> <<>>, old |-> TRUE]
               [] OTHER -> [type |-> "PATH_PARAMETER", path |-> p, name |-> "c", summary |-> "-", description |-> "Says it", tags |-> <<>>, old |-> FALSE]
Shown == IF docs = "off" THEN {} ELSE {Doc(parts'[i].p, parts'[i].k) : i \in 1..Len(parts')}
Document(p, ks) == /\ Mode = "docs" /\ HasPath(p) /\ Len(parts) + Cardinality(ks) <= 4 /\ (\A i \in 1..Len(parts) : parts[i].p # p)
                   /\ LET RECURSIVE Listed(_)
                          Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<[p |-> p, k |-> x]>> \o Listed(s \ {x})
                      IN parts' = parts \o Listed(ks)
                   /\ out' = [shown |-> Shown] /\ UNCHANGED <<maker, ips, docs, paths, keys>>
ModelKinds == {"json", "csv", "service", "simple"}
Model(k) == /\ Mode = "docs" /\ UNCHANGED <<maker, ips, docs, paths, keys, parts>>
            /\ out' = [type |-> CASE k \in {"json", "service"} -> "application/json" [] k = "csv" -> "text/csv" [] OTHER -> "application/xml",
                       schema |-> IF k \in {"json", "service"} THEN "as given" ELSE "empty", ref |-> IF k = "simple" THEN "-" ELSE "to this model"]
Unauthorized == /\ Mode = "docs" /\ UNCHANGED <<maker, ips, docs, paths, keys, parts>> /\ out' = [status |-> 401, ask |-> "'Basic'"]

\* another answer to paths there are not, with a message in the form of JSON
Missing(code, text) == /\ Mode = "docs" /\ UNCHANGED <<maker, ips, docs, paths, keys, parts>> /\ out' = [status |-> code, message |-> text]

\* ---------------------------------------------------------------- export
Export(key, nm) == /\ Mode = "export" /\ UNCHANGED <<maker, ips, docs, paths, keys, parts>>
  /\ out' = IF key = "-" /\ Len(keys) # 1 THEN [refused |-> TRUE]
            ELSE [refused |-> FALSE, url |-> "/digitraffic/" \o (IF nm = "-" THEN "T" ELSE nm) \o "/endpointUrl", keyAt |-> "/digitraffic/" \o (IF nm = "-" THEN "T" ELSE nm) \o "/apiKeyId",
                  key |-> IF key = "-" THEN keys[1].nm ELSE key, urlOf |-> "this API"]

Do(a) == /\ act' = a
         /\ CASE a.op = "resource" -> Resource(a.p, a.key) [] a.op = "plan" -> Plan(a.style, a.nm) [] a.op = "probe" -> Probe [] a.op = "document" -> Document(a.p, a.ks)
              [] a.op = "model" -> Model(a.k) [] a.op = "unauthorized" -> Unauthorized [] a.op = "missing" -> Missing(a.code, a.text) [] OTHER -> Export(a.key, a.nm)
Actions == {[op |-> "resource", p |-> p, key |-> k] : p \in PathSet, k \in {"key", "open"}}
           \cup {[op |-> "plan", style |-> s, nm |-> n] : s \in {"old", "v2", "valued"}, n \in {"first", "second"}}
           \cup {[op |-> "probe"], [op |-> "unauthorized"]} \cup {[op |-> "missing", code |-> c, text |-> x] : c \in {404, 410, 301}, x \in {"Gone", "Say \"please\""}}
           \cup {[op |-> "document", p |-> p, ks |-> ks] : p \in PathSet, ks \in {{"method"}, {"oldMethod", "query"}, {"method", "query", "oldQuery"}, {"path", "method"}}}
           \cup {[op |-> "model", k |-> k] : k \in ModelKinds}
           \cup {[op |-> "export", key |-> k, nm |-> n] : k \in {"-", "given"}, n \in {"-", "Other"}}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* nobody outside the list gets anything, no closed path opens without a key, and an unknown path is never told apart from a wrong key
Invariants == /\ \A a \in 1..3, p \in 1..5, v \in 1..4, k \in 1..4 :
                   /\ ~Allowed(Addresses[a]) => Table[a][p][v][k] = 403
                   /\ (Table[a][p][v][k] = 200 /\ paths[Probed[p]] = "key") => (KeysSent[k] \in {"right", "second"} /\ keys # <<>>)
                   /\ (p = 5 /\ Allowed(Addresses[a])) => Table[a][p][v][k] = 404
              /\ \A p \in DOMAIN paths : Parent[p] = "-" \/ Parent[p] \in DOMAIN paths
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
