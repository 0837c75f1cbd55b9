------------------------------- MODULE Retry -------------------------------
(* The retry utility: callers run a fallible asynchronous operation under a bounded  *)
(* number of attempts.  One action per linearization point: the call, the settling   *)
(* of the attempt in flight, a timer that falls due, the late settling of an attempt  *)
(* that was given up on.  Several callers interleave.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients,      \* callers
          Configs,      \* what a caller may ask for: [via, retries, mode, pred, delay]
          Errors,       \* how an attempt may fail
          MaxCalls      \* calls per caller (several in a row share nothing)

VARIABLES st,    \* per caller: the call in progress and what its environment saw
          now,   \* virtual time, ms
          act    \* the label of the last action (not part of the state proper)

vars == <<st, now, act>>

AttemptLimit == 30 * 60 * 1000
INFTY == 9999  NEGINF == 9998  NAN == 9997   \* stand-ins for the non-finite numbers

\* ---- what the arguments mean
Eff(c) ==
  CASE c.via = "default" -> [c EXCEPT !.retries = 3, !.mode = "last", !.pred = "always", !.delay = "none"]
    [] c.via = "request" -> [c EXCEPT !.retries = 5, !.mode = "last", !.pred = "status", !.delay = "exp"]
    [] OTHER -> c
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
DelayMs(kind, n) ==
  CASE kind = "none" -> 0
    [] kind = "exp"  -> Pow2(n) * 1000
    [] kind = "lin"  -> 100 * n
    [] kind = "neg"  -> -5
    [] kind = "one"  -> 1
Retryable(pred, err) ==
  CASE pred = "always" -> TRUE
    [] pred = "never"  -> FALSE
    [] pred = "status" -> err \in {"http403", "http429", "sub429"}   \* by the status of an HTTP error, not of anything that looks like one
    [] pred = "notimeout" -> err # "timeout"
Rejected(r) == r \in {INFTY, NEGINF, NAN} \/ r > 100
RejectText(r) == IF r \in {INFTY, NEGINF, NAN} THEN "Only finite numbers are supported" ELSE "Exceeded the maximum retry count of 100"
MsgOf(err) == CASE err = "string" -> "Something else than an Error object was thrown"
                [] err = "timeout" -> "Async operation timed out"
                [] OTHER -> err

\* ---- state
Idle == [pc |-> "new", cfg |-> [via |-> "none", retries |-> 0, mode |-> "no", pred |-> "always", delay |-> "none"],
         left |-> 0, attempts |-> 0, wake |-> 0, out |-> "pending", logs |-> <<>>, zombie |-> FALSE, calls |-> 0]
Init == st = [c \in Clients |-> Idle] /\ now = 0 /\ act = [op |-> "init"]

Log(level, text) == <<[level |-> level, text |-> text]>>

Start(s) == [s EXCEPT !.pc = "run", !.attempts = @ + 1, !.wake = now' + AttemptLimit]

Call(c, cfg) ==
  /\ st[c].pc \in {"new", "done"} /\ st[c].calls < MaxCalls
  /\ now' = now
  /\ LET f == Eff(cfg)
         base == [Idle EXCEPT !.cfg = f, !.left = f.retries, !.calls = st[c].calls + 1]
     IN st' = [st EXCEPT ![c] =
          IF Rejected(f.retries) THEN [base EXCEPT !.pc = "done", !.out = RejectText(f.retries)]
          ELSE Start(base)]

\* the attempt in flight failed with err at time now'
AfterFailure(s, err) ==
  LET left == s.left - 1
      f == s.cfg
      l1 == CASE f.mode = "all" -> Log("ERROR", MsgOf(err))
              [] f.mode = "last" -> Log(IF left < 0 THEN "ERROR" ELSE "WARN", MsgOf(err))
              [] f.mode = "no" -> <<>>
      d == DelayMs(f.delay, s.attempts)
      s1 == [s EXCEPT !.left = left, !.logs = @ \o l1, !.zombie = @ \/ (err = "timeout")]
  IN IF left < 0 THEN [s1 EXCEPT !.pc = "done", !.out = "No retries left"]
     ELSE IF ~Retryable(f.pred, err) THEN [s1 EXCEPT !.pc = "done", !.out = "Retry predicate failed"]
     ELSE IF d > 0 THEN [s1 EXCEPT !.pc = "wait", !.wake = now' + d]
     ELSE Start(s1)

Succeed(c) == /\ st[c].pc = "run" /\ now' = now
              /\ st' = [st EXCEPT ![c] = [st[c] EXCEPT !.pc = "done", !.out = "ok"]]
Fail(c, err) == /\ st[c].pc = "run" /\ now' = now
                /\ st' = [st EXCEPT ![c] = AfterFailure(st[c], err)]
\* an attempt that was given up on settles after all: nobody may notice
Late(c, err) == /\ st[c].zombie /\ now' = now
                /\ st' = [st EXCEPT ![c].zombie = FALSE]

Armed == {c \in Clients : st[c].pc \in {"run", "wait"}}
Earliest == IF Armed = {} THEN now ELSE CHOOSE t \in {st[c].wake : c \in Armed} : \A c \in Armed : t <= st[c].wake
\* time moves on, at most to the next deadline; everything due then happens
Advance(ms) == /\ Armed = {} \/ now + ms <= Earliest
               /\ now' = now + ms
               /\ st' = [c \in Clients |->
                    IF c \notin Armed \/ st[c].wake # now' THEN st[c]
                    ELSE IF st[c].pc = "wait" THEN Start(st[c])
                    ELSE AfterFailure(st[c], "timeout")]
Tick == Armed # {} /\ Advance(Earliest - now)

Actions == [op : {"call"}, c : Clients, cfg : Configs] \cup [op : {"succeed"}, c : Clients]
      \cup [op : {"fail"}, c : Clients, err : Errors] \cup [op : {"late"}, c : Clients, err : {"ok", "error"}]
      \cup {[op |-> "tick"]}
Do(a) == /\ act' = IF a = [op |-> "tick"] THEN [op |-> "tick", ms |-> Earliest - now] ELSE a
         /\ CASE a.op = "call" -> Call(a.c, a.cfg)
              [] a.op = "succeed" -> Succeed(a.c)
              [] a.op = "fail" -> Fail(a.c, a.err)
              [] a.op = "late" -> Late(a.c, a.err)
              [] a = [op |-> "tick"] -> Tick
              [] a.op = "tick" /\ "ms" \in DOMAIN a -> Advance(a.ms)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars /\ WF_vars(Do([op |-> "tick"]))

\* ---- what must hold
Used == {c \in Clients : st[c].pc # "new"}
Max(a, b) == IF a > b THEN a ELSE b
BoundedAttempts == \A c \in Used : st[c].attempts <= Max(st[c].cfg.retries, 0) + 1
NoAttemptWhenRejected == \A c \in Used : Rejected(st[c].cfg.retries) => st[c].attempts = 0 /\ st[c].pc = "done"
ExhaustedMeansAll == \A c \in Used : st[c].out = "No retries left" => st[c].attempts = Max(st[c].cfg.retries, 0) + 1
SilentMeansNoErrors == \A c \in Used : st[c].cfg.mode = "no" => \A i \in 1..Len(st[c].logs) : st[c].logs[i].level # "ERROR"
OneErrorAtMostForLast == \A c \in Used : st[c].cfg.mode = "last" =>
     Cardinality({i \in 1..Len(st[c].logs) : st[c].logs[i].level = "ERROR"}) = (IF st[c].out = "No retries left" THEN 1 ELSE 0)
NeverOverdue == \A c \in Armed : st[c].wake >= now
Invariants == BoundedAttempts /\ NoAttemptWhenRejected /\ ExhaustedMeansAll /\ SilentMeansNoErrors /\ OneErrorAtMostForLast /\ NeverOverdue
\* an attempt is started only by the call itself, a failure or a delay that ran out; a finished call stays finished until the next call
FinishedStays == [][\A c \in Clients : st[c].pc = "done" => st'[c].pc = "done" \/ st'[c].calls = st[c].calls + 1]_vars
OneAtATime == [][\A c \in Clients : st'[c].calls = st[c].calls => st'[c].attempts \in {st[c].attempts, st[c].attempts + 1}]_vars
\* every call ends, because an attempt that hangs is given up on
Terminates == \A c \in Clients : [](st[c].pc \in {"run", "wait"} => <>(st[c].pc = "done"))

Obs1(s) == [attempts |-> s.attempts, out |-> s.out, logs |-> s.logs]
Obs == [now |-> now, c |-> [c \in Clients |-> Obs1(st[c])]]
Key == [st |-> st, now |-> now]
View == <<st, now>>
Emit == PrintT("@@" \o ToJson([s |-> Key, a |-> act', t |-> Key', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
