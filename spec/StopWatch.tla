------------------------------ MODULE StopWatch ------------------------------
(* A stop watch with named tasks: a task's duration is the time that it has been      *)
(* running, over all the periods between its starts and stops.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPeriods, Tasks,      \* names; "" is the task without a name
          Durations, MaxTime
VARIABLES now, task, out, act
vars == <<now, task, out, act>>
View == <<now, task>>
Gone == [known |-> FALSE, running |-> FALSE, since |-> 0, total |-> 0, periods |-> <<>>]
Init == now = 0 /\ task = [t \in Tasks |-> Gone] /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Dur(t, n) == task[t].total + (IF task[t].running THEN n - task[t].since ELSE 0)
Closed(x) == IF ~x.running THEN x ELSE [x EXCEPT !.running = FALSE, !.total = @ + (now - x.since), !.periods = [@ EXCEPT ![Len(@)] = <<@[1], now>>]]
\* starting a running task ends its period and starts another
Start(t) == /\ task' = [task EXCEPT ![t] = [Closed(@) EXCEPT !.known = TRUE, !.running = TRUE, !.since = now, !.periods = Append(@, <<now, -1>>)]]
            /\ out' = [kind |-> "done"] /\ now' = now
Stop(t) == /\ task' = [task EXCEPT ![t] = Closed(@)] /\ out' = [kind |-> IF task[t].known THEN "done" ELSE "not found"] /\ now' = now
Reset(t) == task' = [task EXCEPT ![t] = Gone] /\ out' = [kind |-> "done"] /\ now' = now
ResetAll == task' = [t \in Tasks |-> Gone] /\ out' = [kind |-> "done"] /\ now' = now
\* a new watch that has been started at once
Started(t) == task' = [x \in Tasks |-> IF x = t THEN [known |-> TRUE, running |-> TRUE, since |-> now, total |-> 0, periods |-> <<<<now, -1>>>>] ELSE Gone] /\ out' = [kind |-> "done"] /\ now' = now
Wait(d) == now' = now + d /\ task' = task /\ out' = [kind |-> "done"]
\* one line per task with its duration; the task without a name goes under the method
LogTasks(level) == /\ UNCHANGED <<now, task>>
                   /\ out' = [kind |-> "logged", lines |-> {[level |-> level, task |-> IF t = "" THEN "some.method" ELSE t, took |-> Dur(t, now)] : t \in {x \in Tasks : task[x].known}}]
Do(a) == /\ CASE a.op = "start" -> Start(a.t) [] a.op = "stop" -> Stop(a.t) [] a.op = "reset" -> Reset(a.t) [] a.op = "resetall" -> ResetAll
              [] a.op = "started" -> Started(a.t) [] a.op = "wait" -> Wait(a.ms) [] a.op = "log" -> LogTasks(a.level)
         /\ act' = a
Actions == {[op |-> o, t |-> t] : o \in {"start", "stop", "started"}, t \in Tasks} \cup {[op |-> "reset", t |-> t] : t \in Tasks \ {""}} \cup {[op |-> "resetall"]} \cup {[op |-> "wait", ms |-> d] : d \in Durations}
           \cup {[op |-> "log", level |-> l] : l \in {"info", "warn", "error"}}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
Bound == now <= MaxTime /\ \A t \in Tasks : Len(task[t].periods) <= MaxPeriods
\* ---------------------------------------------------------------- properties
SumOf(ps, n) == LET F[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE F[i - 1] + ((IF ps[i][2] = -1 THEN n ELSE ps[i][2]) - ps[i][1]) IN F[Len(ps)]
Adds == \A t \in Tasks : Dur(t, now) = SumOf(task[t].periods, now) /\ Dur(t, now) <= now
OneOpen == \A t \in Tasks : \A i \in DOMAIN task[t].periods : (task[t].periods[i][2] = -1) <=> (i = Len(task[t].periods) /\ task[t].running)
Invariants == Adds /\ OneOpen
\* a task loses time only by being reset
OnlyGrows == [][act'.op \in {"start", "stop", "wait", "log"} => \A t \in Tasks : Dur(t, now) <= (IF task'[t].running THEN task'[t].total + now' - task'[t].since ELSE task'[t].total)]_vars
Obs == [out |-> out', tasks |-> [t \in Tasks |-> [known |-> task'[t].known, running |-> task'[t].running, total |-> task'[t].total, periods |-> task'[t].periods,
           dur |-> task'[t].total + (IF task'[t].running THEN now' - task'[t].since ELSE 0)]]]
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs, l |-> TLCGet("level")]))
=============================================================================
