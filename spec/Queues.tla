------------------------------- MODULE Queues --------------------------------
(* Queues with their dead letters.  A message that its consumer fails on is tried    *)
(* again, at most as often as the queue allows; after that it goes to the dead       *)
(* letter queue, whose function stores every message as an object of its own in a    *)
(* bucket; what cannot be stored is logged and does not keep the others from it.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Messages, Names, Steps
VARIABLES kind, waiting, dead, stored, lost, n, out, act
vars == <<kind, waiting, dead, stored, lost, n, out, act>>
View == <<kind, waiting, dead, stored, lost, n>>

\* ---------------------------------------------------------------- names of buckets
LowerOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, i) == SubSeq(s, i, i)
Norm(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE IF c \in Letters THEN c ELSE "-"
EndsDash(s) == Len(s) > 0 /\ Ch(s, Len(s)) = "-"
RECURSIVE San(_, _, _)
San(s, i, acc) == IF i > Len(s) THEN acc
                  ELSE LET c == Norm(Ch(s, i)) IN San(s, i + 1, IF c = "-" /\ (acc = "" \/ EndsDash(acc)) THEN acc ELSE acc \o c)
Trim(s) == IF EndsDash(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* lower case letters, digits and single hyphens inside; a name too long is cut and gets a mark of eight digits of its own
BucketName(s) == LET t == Trim(San(s, 1, "")) IN IF Len(t) <= 63 THEN t ELSE Trim(SubSeq(t, 1, 54)) \o "-########"
ValidName(s) == Len(s) <= 63 /\ Ch(s, 1) # "-" /\ ~EndsDash(s)
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN "" ELSE s \o Times(s, k - 1)
NameOf(x) == x.pre \o Times(x.unit, x.times) \o x.post

\* ---------------------------------------------------------------- queues
HasDlq(k) == k # "fifo"
OwnDlq(k) == k = "own"
MaxTries(k) == IF k = "fifo" THEN 1000 ELSE IF OwnDlq(k) THEN 4 ELSE 2
Made(k) ==
  [kind |-> "made", encrypted |-> TRUE,
   queue |-> IF k = "dlq" THEN "-" ELSE IF k = "fifo" THEN "T-my_things-Queue.fifo" ELSE "T-my_things-Queue", fifo |-> (k = "fifo"),
   dead |-> IF k \in {"standard", "dlq"} THEN "T-my_things-DLQ" ELSE IF OwnDlq(k) THEN "own" ELSE "-",
   tries |-> IF k \in {"fifo", "dlq"} THEN 0 ELSE MaxTries(k),
   bucket |-> IF k \in {"standard", "dlq"} THEN "s-t-my-things-dlq private" ELSE "-",
   \* the function of the dead letters may write to that bucket, read that queue, and nothing else
   grants |-> IF k \in {"standard", "dlq"} THEN {"s3:PutObject bucket/*", "s3:PutObjectAcl bucket/*", "sqs:ReceiveMessage T-my_things-DLQ", "sqs:ChangeMessageVisibility T-my_things-DLQ", "sqs:GetQueueUrl T-my_things-DLQ", "sqs:DeleteMessage T-my_things-DLQ", "sqs:GetQueueAttributes T-my_things-DLQ"} ELSE {},
   alarm |-> IF k \in {"standard", "dlq"} THEN "T-my_things-DLQ-Alarm warning" ELSE "-",
   inTime |-> TRUE,
   \* whatever else is asked of the queue, it has
   settings |-> IF k = "dlq" THEN "-" ELSE "as asked"]

Init == /\ kind \in Kinds /\ waiting = [m \in {} |-> 0] /\ dead = <<>> /\ stored = {} /\ lost = {} /\ n = -1
        /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Create == /\ n = -1 /\ kind # "names" /\ n' = 0 /\ out' = Made(kind) /\ UNCHANGED <<kind, waiting, dead, stored, lost>>
Fresh(m) == m \notin DOMAIN waiting /\ m \notin stored /\ m \notin lost /\ \A i \in 1..Len(dead) : dead[i] # m
\* two messages may well say the same; each is a message all the same
BodyOf(m) == IF m \in {"m1", "m2", "m5"} THEN "twin" ELSE IF m = "m3" THEN "odd" ELSE "plain"
Bodies(s) == [b \in {BodyOf(m) : m \in s} |-> Cardinality({m \in s : BodyOf(m) = b})]
Emit0(w, d, s, l) == out' = [kind |-> "state", waiting |-> w, dead |-> d, stored |-> Bodies(s)]
Send(m) == /\ n >= 0 /\ n < Steps /\ kind # "dlq" /\ Fresh(m) /\ n' = n + 1
           /\ waiting' = [x \in DOMAIN waiting \cup {m} |-> IF x = m THEN 0 ELSE waiting[x]]
           /\ UNCHANGED <<kind, dead, stored, lost>> /\ Emit0(waiting', dead', stored', lost')
Drop(m) == /\ n >= 0 /\ n < Steps /\ kind = "dlq" /\ Fresh(m) /\ Len(dead) < 10 /\ n' = n + 1   \* put on the dead letter queue by somebody else
           /\ dead' = Append(dead, m) /\ UNCHANGED <<kind, waiting, stored, lost>> /\ Emit0(waiting', dead', stored', lost')
\* as many as there can be in a batch, all at once
Lot == <<"f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10">>
Flood == /\ n >= 0 /\ n < Steps /\ kind = "dlq" /\ dead = <<>> /\ Fresh("f1") /\ n' = n + 1
         /\ dead' = Lot /\ UNCHANGED <<kind, waiting, stored, lost>> /\ Emit0(waiting', dead', stored', lost')
Without(f, m) == [x \in DOMAIN f \ {m} |-> f[x]]
Consume(m, ok) ==
  /\ n >= 0 /\ n < Steps /\ m \in DOMAIN waiting /\ n' = n + 1
  /\ IF ok THEN waiting' = Without(waiting, m) /\ dead' = dead /\ lost' = lost \cup {m}    \* handled: it is gone
     ELSE IF waiting[m] + 1 < MaxTries(kind) THEN waiting' = [waiting EXCEPT ![m] = @ + 1] /\ dead' = dead /\ lost' = lost
     ELSE waiting' = Without(waiting, m) /\ dead' = Append(dead, m) /\ lost' = lost
  /\ UNCHANGED <<kind, stored>> /\ Emit0(waiting', dead', stored', lost')
Head2(s) == SubSeq(s, 1, IF Len(s) < 3 THEN Len(s) ELSE 3)
\* the function of the dead letter queue gets a batch; the uploads in `bad' fail
Collect(bad) ==
  /\ n >= 0 /\ n < Steps /\ kind \in {"standard", "dlq"} /\ dead # <<>> /\ n' = n + 1
  /\ LET batch == {dead[i] : i \in 1..Len(dead)} IN
     /\ bad \subseteq batch
     /\ stored' = stored \cup (batch \ bad) /\ lost' = lost \cup bad /\ dead' = <<>>
     /\ out' = [kind |-> "collected", waiting |-> waiting, dead |-> dead', stored |-> Bodies(stored'), logged |-> Cardinality(bad), settled |-> TRUE]
  /\ UNCHANGED <<kind, waiting>>
Name(x) == /\ kind = "names" /\ n < Steps /\ n' = n + 1
           /\ out' = [kind |-> "bucket", name |-> BucketName(NameOf(x)), distinct |-> TRUE]
           /\ UNCHANGED <<kind, waiting, dead, stored, lost>>
Do(a) == /\ act' = a
         /\ CASE a.op = "create" -> Create [] a.op = "send" -> Send(a.m) [] a.op = "drop" -> Drop(a.m) [] a.op = "flood" -> Flood [] a.op = "consume" -> Consume(a.m, a.ok)
              [] a.op = "collect" -> Collect(a.bad) [] OTHER -> Name(a.x)
Actions == {[op |-> "create"], [op |-> "flood"]} \cup {[op |-> "send", m |-> m] : m \in Messages} \cup {[op |-> "drop", m |-> m] : m \in Messages}
           \cup {[op |-> "consume", m |-> m, ok |-> b] : m \in Messages, b \in BOOLEAN} \cup {[op |-> "collect", bad |-> b] : b \in SUBSET Messages}
           \cup {[op |-> "name", x |-> x] : x \in Names}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
\* every message is somewhere: waiting, among the dead, stored, handled, or reported as not stored
Bounded == \A m \in DOMAIN waiting : waiting[m] < MaxTries(kind)
Once == \A m \in stored : m \notin DOMAIN waiting /\ \A i \in 1..Len(dead) : dead[i] # m
NamesValid == \A x \in Names : ValidName(BucketName(NameOf(x)))
Invariants == Bounded /\ Once /\ NamesValid
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
=============================================================================
