------------------------------ MODULE SignData -------------------------------
(* Variable road signs: what the sources send (the list of signs, their states, and the texts about them in three versions of  *)
(* the exchange format, over an older and a newer interface) and what is published of it.  The newer interface first keeps     *)
(* every message as it came and works through them afterwards, in the order in which they came.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Order,         \* the signs there are, in the order of their names
          Lists, States, Bodies, Uploads, Waits,   \* what is sent
          Deletes, Starts, Steps
VARIABLES now, devices, texts, inbox, rows, last, saidAt, out, act
vars == <<now, devices, texts, inbox, rows, last, saidAt, out, act>>
View == <<now, devices, texts, inbox, rows, last, saidAt>>
Devs == {Order[i] : i \in 1..Len(Order)}
Kinds == {"SITUATION", "CONTROLLER", "CONTROLLER_STATUS"}
Slots == ({"2"} \X {"SITUATION"}) \cup ({"5", "7"} \X Kinds)
Nothing == [v |-> "-", at |-> 0]
NoTexts == [s \in Slots |-> [d \in Devs |-> Nothing]]
NoDevices == [d \in Devs |-> [state |-> "none", v |-> 0]]

\* ---- what is not for the public: situations of the signs that were tried out, in the nights they were tried out
Tried == {"VME/TIO01K502", "VME/TIO01K500", "VME/TIO015111", "VME/TIO015152"}
Nights == {"first", "last", "first2", "last2"}     \* starts in a night of trial: from its first moment to before its end
Hidden(d, v) == (d \in Tried /\ v \in Nights) \/ v = "record"      \* what counts is the sign the record itself is about

\* ---- what is published: the latest texts of the signs there are, in the order of the names of the signs
Live == {d \in Devs : devices[d].state = "live"}
Published(s) == SelectSeq(Order, LAMBDA d : d \in Live /\ texts[s][d].v # "-" /\ ~(s[2] = "SITUATION" /\ Hidden(d, texts[s][d].v)))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Time(s) == Max({0 - 1} \cup {texts[s][d].at : d \in {x \in Live : texts[s][x].v # "-"}})
Serve == [s \in Slots |-> [time |-> Time(s), items |-> [i \in 1..Len(Published(s)) |-> [id |-> Published(s)[i], v |-> texts[s][Published(s)[i]].v]]]]

Init == \E st \in Starts :
  /\ now = 0 /\ devices = st.devices /\ texts = st.texts /\ inbox = <<>> /\ rows = <<>> /\ last = 0 - 1 /\ saidAt = 0 - 1
  /\ out = "-" /\ act = [op |-> "init"]
Tick == now' = now + 1

\* ---- the list of signs: everything on it is there, everything else is gone; the last of two entries of a sign counts
Listed(list, d) == {i \in 1..Len(list) : list[i].dev = d}
Take(list) == [d \in Devs |-> IF Listed(list, d) # {} THEN [state |-> "live", v |-> list[Max(Listed(list, d))].v]
                              ELSE IF devices[d].state = "none" THEN devices[d] ELSE [devices[d] EXCEPT !.state = "gone"]]
Metadata(m) ==
  /\ IF m.kind # "list" THEN UNCHANGED devices /\ out' = "refused"
     ELSE IF m.fault THEN UNCHANGED devices /\ out' = "failed"
     ELSE devices' = Take(m.list) /\ out' = "ok"
  /\ UNCHANGED <<texts, inbox, rows, last, saidAt>>

\* ---- the states of signs, each with the rows it shows: all that is sent at once is taken, or none of it
State(x) ==
  /\ IF x.kind # "list" THEN UNCHANGED rows /\ out' = "refused"
     ELSE IF x.fault > 0 THEN UNCHANGED rows /\ out' = "failed"
     ELSE rows' = rows \o x.list /\ out' = "ok"
  /\ UNCHANGED <<devices, texts, inbox, last, saidAt>>

\* ---- texts: the latest of a sign in a version and of a kind takes the place of the one before
Saved(t, s, items, at) == [t EXCEPT ![s] = [d \in Devs |-> LET is == {i \in 1..Len(items) : items[i].dev = d /\ items[i].v # "bad"} IN IF is = {} THEN t[s][d] ELSE [v |-> items[Max(is)].v, at |-> at]]]
\* over the older interface: all the situations of a message, or none
Legacy(b) ==
  /\ IF b.kind \in {"nothing", "noxml", "nopayload", "twopayloads"} THEN UNCHANGED <<texts, last>> /\ out' = "refused"
     ELSE IF b.kind = "cut" \/ (\E i \in 1..Len(b.items) : b.items[i].v = "bad") \/ b.fault > 0 THEN UNCHANGED <<texts, last>> /\ out' = "failed"
     ELSE texts' = Saved(texts, <<"2", "SITUATION">>, b.items, now) /\ last' = now /\ out' = "ok"
  /\ UNCHANGED <<devices, inbox, rows, saidAt>>

\* ---- over the newer interface: kept as they came
Entry(e) == [type |-> e.type, ver |-> e.ver, kind |-> e.kind, whole |-> e.whole, items |-> e.items, at |-> now, status |-> "NEW"]
Upload(u) ==
  /\ IF u.kind # "list" THEN UNCHANGED <<inbox, saidAt>> /\ out' = "refused"
     ELSE IF u.fault = "db" THEN UNCHANGED <<inbox, saidAt>> /\ out' = "failed"
     ELSE /\ inbox' = inbox \o [i \in 1..Len(u.list) |-> Entry(u.list[i])]
          \* those who work through them are told, or the sender is told that they were not
          /\ IF u.fault = "queue" THEN UNCHANGED saidAt /\ out' = "failed" ELSE saidAt' = now /\ out' = "ok"
  /\ UNCHANGED <<devices, texts, rows, last>>
Ours == {"VARIABLE_MESSAGE_SIGN_DATEX_XML", "VARIABLE_MESSAGE_SIGN_METADATA_XML"}
Due(i) == inbox[i].status = "NEW" /\ inbox[i].type \in Ours
Done(e) == IF e.whole THEN "PROCESSED" ELSE "FAILED"
\* a message that cannot be read disturbs none of the others
RECURSIVE After(_, _)
After(i, t) == IF i > Len(inbox) THEN t
               ELSE After(i + 1, IF Due(i) /\ inbox[i].whole THEN Saved(t, <<inbox[i].ver, inbox[i].kind>>, inbox[i].items, now) ELSE t)
Handle ==
  /\ \E t \in {TLCEval(After(1, texts))} : texts' = t
  /\ inbox' = [i \in 1..Len(inbox) |-> IF Due(i) THEN [inbox[i] EXCEPT !.status = Done(inbox[i])] ELSE inbox[i]]
  /\ out' = "done" /\ UNCHANGED <<devices, rows, last, saidAt>>
\* messages are kept for seven whole days
Day == 1440
Noon == 720      \* the history begins at noon
Delete ==
  /\ inbox' = SelectSeq(inbox, LAMBDA e : e.at + Noon >= ((now + Noon) \div Day) * Day - 7 * Day)
  /\ out' = "done" /\ UNCHANGED <<devices, texts, rows, last, saidAt>>

Actions == {[op |-> "metadata", m |-> m] : m \in Lists} \cup {[op |-> "state", m |-> x] : x \in States} \cup {[op |-> "legacy", m |-> b] : b \in Bodies}
   \cup {[op |-> "upload", m |-> u] : u \in Uploads} \cup {[op |-> "handle"] : x \in {1 : u \in Uploads}} \cup {[op |-> "delete"] : x \in Deletes} \cup {[op |-> "wait", m |-> w] : w \in Waits}
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "metadata" -> Metadata(a.m) /\ Tick
       [] a.op = "state" -> State(a.m) /\ Tick
       [] a.op = "legacy" -> Legacy(a.m) /\ Tick
       [] a.op = "upload" -> Upload(a.m) /\ Tick
       [] a.op = "handle" -> Handle /\ Tick
       [] a.op = "delete" -> Delete /\ Tick
       [] a.op = "wait" -> now' = now + a.m /\ out' = "-" /\ UNCHANGED <<devices, texts, inbox, rows, last, saidAt>>
Next == TLCGet("level") <= Steps /\ \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

Obs == [out |-> out, devices |-> {[id |-> d, state |-> devices[d].state, v |-> devices[d].v] : d \in {x \in Devs : devices[x].state # "none"}}, rows |-> rows, last |-> last, said |-> saidAt,
        inbox |-> [i \in 1..Len(inbox) |-> [type |-> inbox[i].type, at |-> inbox[i].at, status |-> inbox[i].status]],
        served |-> {[ver |-> s[1], kind |-> s[2], time |-> Serve[s].time, items |-> Serve[s].items] : s \in Slots}]
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))

\* ---- what holds of every history
Safe == \A s \in Slots : \A i \in 1..Len(Serve[s].items) :
  /\ devices[Serve[s].items[i].id].state = "live"                                          \* nothing of a sign that is not there
  /\ s[2] = "SITUATION" => ~Hidden(Serve[s].items[i].id, Serve[s].items[i].v)             \* nothing of the trials
  /\ \A j \in 1..Len(Serve[s].items) : i # j => Serve[s].items[i].id # Serve[s].items[j].id   \* one text of a sign
\* what a failure or a refusal leaves behind: everything as it was, but for what was kept
Untouched == [][out' \in {"refused", "failed"} => /\ texts' = texts /\ devices' = devices /\ rows' = rows /\ last' = last
                                                   /\ (out' = "refused" => inbox' = inbox)]_vars
\* what is worked through once is not worked through again, and nothing is done with it before
Once == [][\A i \in 1..Len(inbox) : inbox[i].status # "NEW" /\ Len(inbox') >= Len(inbox) => inbox'[i].status = inbox[i].status]_vars
\* time never goes backwards for the reader, as long as the signs stay
Forward == [][devices' = devices => \A s \in Slots : Time(s)' >= Time(s)]_vars
=============================================================================
