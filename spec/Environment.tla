---------------------------- MODULE Environment ------------------------------
(* The stacks every application of an environment stands on: the network, the        *)
(* database, its proxy and the names.  A stack hands values on in two ways, as        *)
(* exports named after the environment and as parameters; another stack can only be   *)
(* deployed once everything it takes is there.  The state is what has been handed on  *)
(* by which stack, and what outlives the stack that made it.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Envs, Nets, Dbs, Proxies, Identifiers, Steps
VARIABLES env, stacks, kept, n, out, act
vars == <<env, stacks, kept, n, out, act>>
View == <<env, stacks, kept, n>>

Names == {"net", "db", "proxy", "dns"}
None == [exports |-> {}, params |-> {}, takes |-> {}, made |-> FALSE]
Exported == UNION {stacks[x].exports : x \in Names}
Params == UNION {stacks[x].params : x \in Names}
ExportName(x) == "digitraffic-" \o env \o "-" \o x
Has(set, name) == \E p \in set : p[1] = name
Of(set, name) == (CHOOSE p \in set : p[1] = name)[2]
Export(x, v) == <<ExportName(x), v>>
Db(x) == "/digitraffic/db/" \o x
Refused == [kind |-> "refused"]
\* what another stack still takes cannot be withdrawn
Taken(x) == UNION {stacks[y].takes : y \in Names \ {x}}
Withdrawn(x, exports) == {p[1] : p \in stacks[x].exports} \ {p[1] : p \in exports}
Deploy(x, exports, params, takes, seen) ==
  LET missing == {t \in takes : ~Has(Exported, t)} IN
  IF missing # {} \/ Withdrawn(x, exports) \cap Taken(x) # {} THEN out' = Refused /\ UNCHANGED stacks
  ELSE /\ stacks' = [stacks EXCEPT ![x] = [exports |-> exports, params |-> params, takes |-> takes, made |-> TRUE]]
       /\ out' = seen
NetTakes == {ExportName("VPCID"), ExportName("digitrafficprivateASubnet"), ExportName("digitrafficprivateBSubnet")}

\* ---------------------------------------------------------------- network
\* the two first availability zones, whatever order they are told in
Zones == <<"eu-west-1a", "eu-west-1b">>
Letter(i) == IF i = 1 THEN "A" ELSE "B"
Subnet(kind, i) == kind \o " " \o Zones[i]
NetExports == {Export("VPCID", "vpc")} \cup {Export("digitrafficpublic" \o Letter(i) \o "Subnet", Subnet("public", i)) : i \in 1..2}
              \cup {Export("digitrafficprivate" \o Letter(i) \o "Subnet", Subnet("private", i)) : i \in 1..2}
Network(c) ==
  /\ Deploy("net", NetExports, {}, {},
       [kind |-> "network", name |-> c.name, cidr |-> c.net \o ".0.0/16", names |-> TRUE,
        subnets |-> {<<Subnet("public", i), c.net \o "." \o ToString(i - 1) \o ".0/24", "internet">> : i \in 1..2}
                    \cup {<<Subnet("private", i), c.net \o "." \o ToString(i + 1) \o ".0/24", IF c.gateway = "-" THEN "nat in " \o Subnet("public", i) ELSE c.gateway>> : i \in 1..2}])
  /\ kept' = kept

\* ---------------------------------------------------------------- database
Endpoint(i) == i.pre \o i.mid \o i.post
\* everything before the first ".cluster"
IdentifierOf(i, fallback) == IF i.mid = ".cluster" /\ i.pre # "" THEN i.pre ELSE fallback
ClusterSeen(c) ==
  [kind |-> "database", version |-> c.version, snapshot |-> c.snapshot,
   user |-> IF c.snapshot = "-" THEN "db.superuser" ELSE "-", password |-> IF c.snapshot = "-" THEN "db.superuser.password" ELSE "-",
   port |-> 5432, backups |-> 35, locked |-> TRUE, encrypted |-> c.encrypted # "no",
   key |-> IF c.encrypted = "yes" THEN "alias/" \o env \o "/db rotated" ELSE "-",
   groups |-> "sg-1", subnets |-> IF c.vpc = "-" THEN {Subnet("private", 1), Subnet("private", 2)} ELSE {"own-1", "own-2"},
   logs |-> TRUE, parameters |-> IF c.versions = <<>> THEN "-" ELSE "aurora-postgresql" \o c.versions[1].major,
   memory |-> [i \in 1..Len(c.versions) |-> "aurora-postgresql" \o c.versions[i].major \o " " \o (IF c.memory = 0 THEN "524288" ELSE ToString(c.memory))],
   instances |-> <<"writer " \o c.writer>> \o [i \in 1..Len(c.readers) |-> "reader " \o c.readers[i]],
   closed |-> TRUE, upgrades |-> "minor", insight |-> TRUE, told |-> "cluster"]
Database(c) ==
  LET own == c.kind \in {"cluster", "both"}
      imported == c.kind \in {"import", "both"}
  IN
  IF own = imported \/ (own /\ c.versions = <<>>) \/ (imported /\ IdentifierOf(c.endpoint, "") = "")
  THEN out' = Refused /\ UNCHANGED <<stacks, kept>>
  ELSE IF own
  THEN /\ Deploy("db", {Export("db-cluster", "cluster"), Export("db-cluster-writer-endpoint", "cluster writer"), Export("db-cluster-reader-endpoint", "cluster reader")},
                 {<<Db("identifier"), "cluster">>, <<Db("writer-endpoint"), "cluster writer">>, <<Db("reader-endpoint"), "cluster reader">>},
                 IF c.vpc = "-" THEN NetTakes \ {ExportName("VPCID")} ELSE {}, ClusterSeen(c))
       \* the database outlives the stack
       /\ kept' = IF out'.kind = "refused" THEN kept ELSE kept \cup {"cluster"} \cup (IF c.encrypted = "yes" THEN {"key"} ELSE {})
  ELSE /\ Deploy("db", {}, {<<Db("identifier"), IdentifierOf(c.endpoint, "")>>, <<Db("writer-endpoint"), Endpoint(c.endpoint)>>, <<Db("reader-endpoint"), c.reader>>}, {}, [kind |-> "imported", told |-> IdentifierOf(c.endpoint, "")])
       /\ kept' = kept

\* ---------------------------------------------------------------- proxy
Proxy(c) ==
  IF c.cluster = "" THEN out' = Refused /\ UNCHANGED <<stacks, kept>>
  ELSE /\ Deploy("proxy", {Export("db-reader-endpoint", "proxy writer"), Export("db-writer-endpoint", "proxy writer")},
                 {<<Db("proxy-reader-endpoint"), "proxy reader">>, <<Db("proxy-writer-endpoint"), "proxy writer">>}, NetTakes \ {ExportName("VPCID")},
                 [kind |-> "proxy", name |-> IF c.name = "-" THEN "AuroraProxy" ELSE c.name, of |-> c.cluster, idle |-> 1800, borrow |-> 120, most |-> 50, spare |-> 25,
                  secret |-> "s-AbCdEf", mayRead |-> TRUE, tls |-> FALSE, groups |-> {c.group}, subnets |-> {Subnet("private", 1), Subnet("private", 2)}, reader |-> "read only"])
       /\ kept' = kept

\* ---------------------------------------------------------------- names
DnsTakes == {"cluster.reader", "cluster.writer", "proxy.reader", "proxy.writer"}
Dns ==
  LET wants == <<<<"db-ro", "reader-endpoint">>, <<"db", "writer-endpoint">>, <<"proxy-ro", "proxy-reader-endpoint">>, <<"proxy", "proxy-writer-endpoint">>>>
      all == \A i \in 1..4 : Has(Params, Db(wants[i][2]))
  IN
  IF ~all THEN out' = Refused /\ UNCHANGED <<stacks, kept>>
  ELSE /\ Deploy("dns", {}, {}, {ExportName("VPCID")},
                 [kind |-> "names", zone |-> env \o ".local in vpc",
                  names |-> {<<wants[i][1] \o "." \o env \o ".local", Of(Params, Db(wants[i][2]))>> : i \in 1..4}, live |-> 30])
       /\ kept' = IF out'.kind = "refused" THEN kept ELSE kept \cup {"zone"}

\* ---------------------------------------------------------------- taking a stack away
Destroy(x) ==
  /\ stacks[x].made
  /\ IF Withdrawn(x, {}) \cap Taken(x) # {} THEN out' = Refused /\ UNCHANGED stacks
     ELSE stacks' = [stacks EXCEPT ![x] = None] /\ out' = [kind |-> "gone", left |-> kept]
  /\ kept' = kept

\* ---------------------------------------------------------------- what an endpoint says about the cluster
Identify(i, fallback) ==
  /\ UNCHANGED <<stacks, kept>>
  /\ LET r == IdentifierOf(i, fallback) IN out' = IF r = "" THEN Refused ELSE [kind |-> "identifier", is |-> r]

Init == /\ env \in Envs /\ stacks = [x \in Names |-> None] /\ kept = {} /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Do(a) == /\ n < Steps /\ n' = n + 1 /\ act' = a /\ UNCHANGED env
         /\ CASE a.op = "network" -> Network(a.c) [] a.op = "database" -> Database(a.c) [] a.op = "proxy" -> Proxy(a.c) [] a.op = "names" -> Dns
              [] a.op = "destroy" -> Destroy(a.stack) [] OTHER -> Identify(a.i, a.fallback)
Actions == {[op |-> "network", c |-> c] : c \in Nets} \cup {[op |-> "database", c |-> c] : c \in Dbs} \cup {[op |-> "proxy", c |-> c] : c \in Proxies}
           \cup {[op |-> "names"]} \cup {[op |-> "destroy", stack |-> x] : x \in Names}
           \cup (IF n = 0 THEN {[op |-> "identify", i |-> i, fallback |-> f] : i \in Identifiers, f \in {"", "fallback"}} ELSE {})
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* whatever a deployed stack takes is there; a value handed on has one source only; a database once made is never lost
Complete == \A x \in Names : \A t \in stacks[x].takes : Has(Exported, t)
OneSource == \A x, y \in Names : x # y => {p[1] : p \in stacks[x].exports \cup stacks[x].params} \cap {p[1] : p \in stacks[y].exports \cup stacks[y].params} = {}
Invariants == Complete /\ OneSource
NeverLost == [][kept \subseteq kept']_vars
\* seen after every step: the outcome and everything that is handed on, by name and value
Obs == [out |-> out, exports |-> Exported, params |-> Params]
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
