---------------------------- MODULE LambdaResponse ----------------------------
(* Responses of non-proxy lambdas: built by a builder or by the older static makers, *)
(* always base64-encoded.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Contents, Statuses, Files, Times, Ops
VARIABLES b, out, act
vars == <<b, out, act>>
Fresh == [content |-> "none", status |-> 200, file |-> "", time |-> ""]
None == [kind |-> "none"]
Init == b = Fresh /\ out = None /\ act = [op |-> "init"]
R(status, content, file, time) == [kind |-> "response", status |-> status, content |-> content, file |-> file, time |-> time]
Big == {"noise", "huge", "lover", "wide"}
Set(f, v) == b' = [b EXCEPT ![f] = v] /\ out' = None
Build == /\ b' = b
         /\ out' = IF b.content \in {"none", "empty"} THEN [kind |-> "throws"]
                   ELSE IF b.content \in Big THEN R(400, "toolarge", "", "")
                   ELSE R(b.status, b.content, b.file, b.time)
StatusOf(w) == CASE w = "badRequest" -> 400 [] w = "unauthorized" -> 401 [] w = "notFound" -> 404 [] w = "contentTooLarge" -> 413
                 [] w = "internalError" -> 500 [] w = "notImplemented" -> 501 [] w \in {"ok", "okJson", "okBinary"} -> 200
DefaultText(w) == CASE w = "badRequest" -> "Bad Request" [] w = "unauthorized" -> "Unauthorized" [] w = "notFound" -> "Not Found"
                    [] w = "contentTooLarge" -> "Content Too Large" [] w = "internalError" -> "Internal Error" [] w = "notImplemented" -> "Not Implemented"
\* older makers; with a timestamp set afterwards on a copy
Static(a) == /\ b' = b
             /\ out' = R(StatusOf(a.what), IF a.content = "default" THEN DefaultText(a.what) ELSE a.content, a.file, a.time)
Errors == {"badRequest", "unauthorized", "notFound", "internalError", "notImplemented"}
Actions == {a \in [op : {"body"}, v : Contents] \cup [op : {"status"}, v : Statuses] \cup [op : {"file"}, v : Files] \cup [op : {"time"}, v : Times]
     \cup {[op |-> "build"]}
     \cup [op : {"old"}, what : {"ok", "okJson", "okBinary"}, content : {"text", "unicode", "object"}, file : {"", "f.json"}, time : {"", "t1"}]
     \cup [op : {"old"}, what : Errors \cup {"contentTooLarge"}, content : {"text", "default"}, file : {""}, time : {"", "t1"}]
     \cup [op : {"maker"}, what : Errors, content : {"text", "default"}, file : {""}, time : {""}] : a.op \in Ops}
TimeOf(v) == CASE v = "t1d" -> "t1" [] v = "t2d" -> "t2" [] OTHER -> v
Do(a) == /\ act' = a
         /\ CASE a.op = "body" -> Set("content", a.v)
              [] a.op = "status" -> Set("status", a.v)
              [] a.op = "file" -> Set("file", a.v)
              [] a.op = "time" -> Set("time", IF a.v = "undefined" THEN b.time ELSE TimeOf(a.v))
              [] a.op = "build" -> Build
              [] a.op \in {"old", "maker"} -> Static(a)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
Invariants == out.kind = "response" => out.content \notin Big \cup {"none", "empty"}
View == <<b, out>>
Emit == PrintT("@@" \o ToJson([s |-> <<b, out>>, a |-> act', t |-> <<b', out'>>, o |-> out', l |-> TLCGet("level")]))
=============================================================================
