----------------------------- MODULE RetryTrace -----------------------------
(* Executions recorded from the real code have to be behaviours of Retry. *)
EXTENDS Retry
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tid, l
Ev == Traces[tid].ev
TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TNext == \/ /\ l <= Len(Ev) /\ Do(Ev[l].a) /\ Obs' = Ev[l].o
            /\ l' = l + 1 /\ UNCHANGED tid
         \/ l > Len(Ev) /\ UNCHANGED <<vars, tid, l>>
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
