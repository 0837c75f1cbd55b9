----------------------------- MODULE StackChecks -----------------------------
(* The checks every stack runs on its own resources before it may be deployed: each  *)
(* breach is an error (or a warning, for naming of paths) on the resource.  A breach *)
(* whose key (path of the resource, slash, what was breached) matches an entry of    *)
(* the whitelist is lowered: error to warning, warning to nothing; nothing else is.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stacks, Whitelists, Resources, MaxResources
VARIABLES stack, white, res, n, out, act
vars == <<stack, white, res, n, out, act>>
View == <<stack, white, res, n>>

\* ---- the whitelist: an entry matches a key that contains its two parts in order
Contains(s, t, from) == \E i \in from..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
FirstAt(s, t) == CHOOSE i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t /\ \A j \in 1..(i - 1) : SubSeq(s, j, j + Len(t) - 1) # t
Matches(w, key) == IF w.b = "" THEN Contains(key, w.a, 1) ELSE Contains(key, w.a, 1) /\ Contains(key, w.b, FirstAt(key, w.a) + Len(w.a))
Listed(key) == \E i \in 1..Len(white) : Matches(white[i], key)
Has(s, t) == Contains(s, t, 1)

\* ---- what is wrong with a resource: a set of [what, level]
Err(w) == [what |-> w, level |-> "error"]
Warn(w) == [what |-> w, level |-> "warning"]
If(c, b) == IF c THEN {b} ELSE {}
Runtimes == {"nodejs24.x", "nodejs22.x", "python3.12", "python3.13"}
Breaches(r) ==
  CASE r.type = "function" ->
         If(r.concurrency = 0 \/ r.concurrency > 100, Err("RESERVED_CONCURRENT_CONCURRENCY"))
         \cup If(r.timeout = 0, Err("FUNCTION_TIMEOUT")) \cup If(r.memory = 0, Err("FUNCTION_MEMORY_SIZE"))
         \cup If(r.runtime # "-" /\ r.runtime \notin Runtimes, Err("FUNCTION_RUNTIME"))
         \cup If(r.name # "-" /\ SubSeq(r.name, 1, 1) # "T", Err("FUNCTION_NAME"))
    [] r.type = "bucket" -> If(r.open # {} /\ r.open # {"none"}, Err("BUCKET_PUBLICITY"))
    [] r.type = "queue" -> If(~r.encrypted, Err("QUEUE_ENCRYPTION"))
    [] r.type = "logs" -> If(~r.retained, Err("LOG_GROUP_RETENTION"))
    [] r.type = "path" -> If(~r.kebab, Warn("RESOURCE_PATH"))
    [] OTHER -> {Err(q) : q \in {r.params[i].name : i \in {i \in 1..Len(r.params) : r.params[i].in = "querystring" /\ ~r.params[i].snake}}}
Problems(path, bs) == {[path |-> path, what |-> b.what,
                        level |-> IF ~Listed(path \o "/" \o b.what) THEN b.level ELSE IF b.level = "error" THEN "warning" ELSE "none"] : b \in bs}
StackBreaches == If((Has(stack.name, "Test") \/ Has(stack.name, "Tst")) /\ stack.production, Err("STACK_NAME"))
                 \cup If((Has(stack.name, "Prod") \/ Has(stack.name, "Prd")) /\ ~stack.production, Err("STACK_NAME"))
                 \cup If(~stack.tagged, Err("TAG_SOLUTION"))
PathOf(i) == stack.name \o "/" \o res[i].id \o (IF res[i].type = "logs" THEN "" ELSE "")
AllProblems == UNION {Problems(PathOf(i), Breaches(res[i])) : i \in 1..Len(res)} \cup Problems(stack.name, StackBreaches)
Report == [kind |-> "report", problems |-> {p.level \o " " \o p.path \o "/" \o p.what : p \in {p \in AllProblems : p.level # "none"}}]

Init == /\ stack \in Stacks /\ white \in Whitelists /\ res = <<>> /\ n = 0 /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Add(r) == /\ n = 0 /\ Len(res) < MaxResources /\ \A i \in 1..Len(res) : res[i].id # r.id
          /\ res' = Append(res, r) /\ out' = [kind |-> "none"] /\ UNCHANGED <<stack, white, n>>
Check == /\ n = 0 /\ n' = 1 /\ out' = Report /\ UNCHANGED <<stack, white, res>>
Do(a) == /\ act' = a /\ CASE a.op = "add" -> Add(a.r) [] OTHER -> Check
Actions == {[op |-> "add", r |-> r] : r \in Resources} \cup {[op |-> "check"]}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* nothing that is breached stays unreported unless its own key is listed
NoneLost == \A p \in AllProblems : p.level = "none" => Listed(p.path \o "/" \o p.what)
Blocked == \A p \in AllProblems : ~Listed(p.path \o "/" \o p.what) /\ p.what # "RESOURCE_PATH" => p.level = "error"
Invariants == NoneLost /\ Blocked
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
