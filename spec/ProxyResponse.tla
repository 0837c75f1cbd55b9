---------------------------- MODULE ProxyResponse ----------------------------
(* The builder of HTTP responses handed to the API gateway by proxy lambdas.  The    *)
(* setters come in any order and number; what is built has to be a consistent HTTP   *)
(* response: decoded as its own headers say, it is the content that was set last.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Contents,    \* contents that may be set: records [id, empty, gain, big, bigz, bigb]: big for too large
                       \* as it is, bigz when compressed, bigb when given base64-encoded
          Statuses, Files, Times, Locations, Types, Ops

VARIABLES b,     \* the builder
          out,   \* what the last action returned
          act
vars == <<b, out, act>>
View == <<b, out>>

NoBodyNeeded == {204, 301, 302, 303, 307, 308}
EmptyContent == CHOOSE c \in Contents : c.empty
TooLarge == "Response too large. Limit response size with parameters."

Fresh == [content |-> EmptyContent, b64 |-> FALSE, file |-> "", time |-> "", loc |-> "", comp |-> FALSE,
          status |-> 200, type |-> "application/json", built |-> FALSE]
None == [kind |-> "none"]
Init == b = Fresh /\ out = None /\ act = [op |-> "init"]

\* headers of a response: empty string = header absent
Response(status, type, file, loc, time, etag, enc, b64, content) ==
  [kind |-> "response", status |-> status, type |-> type, file |-> file, location |-> loc, modified |-> time,
   etag |-> etag, encoding |-> enc, base64 |-> b64, content |-> content]
Error(status, id, type) == Response(status, type, "", "", "", id, "", FALSE, id)

Set(f, v) == /\ ~b.built /\ b' = [b EXCEPT ![f] = v] /\ out' = None
\* content that is not text can only be given base64-encoded
WithBody(c, enc) == /\ ~b.built /\ (c.bytes => enc) /\ b' = [b EXCEPT !.content = c, !.b64 = enc] /\ out' = None
WithCompression(v) ==
  /\ ~b.built
  /\ IF b.b64 /\ v THEN out' = [kind |-> "throws"] /\ b' = b
                   ELSE b' = [b EXCEPT !.comp = v] /\ out' = None
\* a body that is there, is not encoded yet and gets smaller is the only one that is compressed
Gzip == b.comp /\ ~b.b64 /\ ~b.content.empty /\ b.content.gain
Build ==
  /\ b' = [b EXCEPT !.built = TRUE]
  /\ out' = IF b.content.empty /\ b.status \notin NoBodyNeeded THEN [kind |-> "throws"]
            ELSE IF (IF Gzip THEN b.content.bigz ELSE IF b.b64 THEN b.content.bigb ELSE b.content.big) THEN Error(400, "toolarge", "text/plain")
            ELSE Response(b.status, b.type, b.file, b.loc, b.time, b.content.id, IF Gzip THEN "gzip" ELSE "", b.b64 \/ Gzip, b.content.id)
\* the ready-made answers need no builder
Static(a) ==
  /\ ~b.built /\ b' = b
  /\ out' = IF a.what = "redirect" THEN Response(IF a.status = 0 THEN 302 ELSE a.status, "application/json", "", a.loc, "", EmptyContent.id, "", FALSE, EmptyContent.id)
            ELSE Error(CASE a.what = "badRequest" -> 400 [] a.what = "unauthorized" -> 401 [] a.what = "notFound" -> 404
                          [] a.what = "internalError" -> 500 [] a.what = "notImplemented" -> 501,
                       a.content, IF a.content = "object" THEN "application/json" ELSE "text/plain")

Statics == [op : {"static"}, what : {"badRequest", "unauthorized", "notFound", "internalError", "notImplemented"}, content : {"object", "text"}]
           \cup [op : {"static"}, what : {"redirect"}, status : {0, 301, 302, 303, 307, 308}, loc : {"/there?x=1"}]
Actions == { a \in
     [op : {"body"}, content : Contents, b64 : BOOLEAN]
     \cup [op : {"status"}, v : Statuses] \cup [op : {"file"}, v : Files] \cup [op : {"time"}, v : Times]
     \cup [op : {"location"}, v : Locations] \cup [op : {"type"}, v : Types]
     \cup [op : {"compress"}, v : BOOLEAN] \cup {[op |-> "build"]} \cup Statics : a.op \in Ops }

\* a time is given as a string or as a date (t1d, t2d)
TimeOf(v) == CASE v = "t1d" -> "t1" [] v = "t2d" -> "t2" [] OTHER -> v
Do(a) == /\ act' = a
         /\ CASE a.op = "body" -> WithBody(a.content, a.b64)
              [] a.op = "status" -> Set("status", a.v)
              [] a.op = "file" -> Set("file", a.v)
              [] a.op = "time" -> Set("time", IF a.v = "undefined" THEN b.time ELSE TimeOf(a.v))
              [] a.op = "location" -> Set("loc", a.v)
              [] a.op = "type" -> Set("type", a.v)
              [] a.op = "compress" -> WithCompression(a.v)
              [] a.op = "build" -> Build
              [] a.op = "static" -> Static(a)
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars

\* ---- what must hold of everything that is built
IsResponse == out.kind = "response"
Honest == IsResponse => /\ (out.encoding = "gzip" => out.base64)
                        /\ (out.status \in NoBodyNeeded \/ out.content # EmptyContent.id)
                        /\ out.etag = out.content
NeverTooLarge == IsResponse => \A c \in Contents : c.id = out.content => ~(IF out.encoding = "gzip" THEN c.bigz ELSE c.big)
CompressOnlyGain == IsResponse /\ out.encoding = "gzip" => \A c \in Contents : c.id = out.content => c.gain /\ ~c.empty
SameAgain == [][b.built => out' = out]_vars
Invariants == Honest /\ NeverTooLarge /\ CompressOnlyGain
Obs == out
Key == <<b, out>>
Emit == PrintT("@@" \o ToJson([s |-> Key, a |-> act', t |-> Key', o |-> Obs', l |-> TLCGet("level")]))

C(id, empty, gain, big, bigz) == [id |-> id, empty |-> empty, gain |-> gain, big |-> big, bigz |-> bigz, bigb |-> id \in {"huge", "noise", "justfits", "justover", "wide", "exact", "exactplus"}, bytes |-> id \in {"bytes1", "bytes2", "zeros"}]
SmallContents == {C("empty", TRUE, FALSE, FALSE, FALSE), C("tiny", FALSE, FALSE, FALSE, FALSE), C("text", FALSE, TRUE, FALSE, FALSE),
                  C("unicode", FALSE, TRUE, FALSE, FALSE), C("object", FALSE, FALSE, FALSE, FALSE)}
ByteContents == {C("empty", TRUE, FALSE, FALSE, FALSE), C("tiny", FALSE, FALSE, FALSE, FALSE), C("bytes1", FALSE, FALSE, FALSE, FALSE), C("bytes2", FALSE, FALSE, FALSE, FALSE), C("zeros", FALSE, FALSE, FALSE, FALSE)}
FewContents == {C("empty", TRUE, FALSE, FALSE, FALSE), C("tiny", FALSE, FALSE, FALSE, FALSE)}
BigContents == {C("empty", TRUE, FALSE, FALSE, FALSE), C("text", FALSE, TRUE, FALSE, FALSE), C("huge", FALSE, TRUE, TRUE, FALSE),
                C("noise", FALSE, TRUE, TRUE, TRUE), C("justfits", FALSE, TRUE, FALSE, FALSE), C("justover", FALSE, TRUE, TRUE, FALSE),
                \* wide: fewer characters than the limit, more bytes; exact, exactplus: at the limit to the byte, and one over
                C("wide", FALSE, TRUE, TRUE, FALSE), C("exact", FALSE, TRUE, FALSE, FALSE), C("exactplus", FALSE, TRUE, TRUE, FALSE)}
=============================================================================
