------------------------------- MODULE Logging -------------------------------
(* What the services log: every call is one complete JSON line, whatever is logged;   *)
(* texts cut to a limit; handlers made by the handler factory, which answer and log   *)
(* their duration whatever happens; lead times.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Modes, Configs, Lines, Debugs, Exceptions, Leads, Texts, Handlers, Settings, Durations, MaxRuns
VARIABLES mode, cfg, fac, now, runs, out, act
vars == <<mode, cfg, fac, now, runs, out, act>>
View == <<mode, cfg, fac, now, runs>>
None == "-"

\* ---------------------------------------------------------------- values and their two forms
\* "absent" stands for a value that does not appear in the JSON line
Text(v) == CASE v = "num" -> "42" [] v = "zero" -> "0" [] v = "neg" -> "-1.5" [] v = "true" -> "true" [] v = "false" -> "false" [] v = "null" -> "null"
             [] v = "undefined" -> "undefined" [] v = "date" -> "2024-02-29T12:34:56.789Z" [] v = "baddate" -> "Invalid Date" [] v = "bigint" -> "\"12345678901234567890\""
             [] v = "nan" -> "null" [] v = "str" -> "some text" [] v = "empty" -> "" [] v = "eq" -> "\"a=b \\\"c\\\"\"" [] v = "nl" -> "two\nlines" [] v = "utf" -> "(utf)" [] OTHER -> v
Numbers == {"0", "5", "-3"}
JsonOf(v) == CASE v \in Numbers -> [n |-> v] [] v = "num" -> [n |-> "42"] [] v = "zero" -> [n |-> "0"] [] v = "neg" -> [n |-> "-1.5"] [] v = "true" -> [b |-> TRUE] [] v = "false" -> [b |-> FALSE] [] v \in {"null", "nan", "baddate"} -> [z |-> TRUE]
             [] v = "date" -> [t |-> "2024-02-29T12:34:56.789Z"] [] v = "bigint" -> [t |-> "12345678901234567890"]
             [] v = "str" -> [t |-> "some text"] [] v = "empty" -> [t |-> ""] [] v = "eq" -> [t |-> "a=b \"c\""] [] v = "nl" -> [t |-> "two\nlines"] [] v = "utf" -> [t |-> "(utf)"] [] OTHER -> [t |-> v]
Tx(s) == [t |-> s]
\* the name that a field is logged under
Field(k) == CASE k = "customFoo" -> "foo" [] k = "customFooCount" -> "fooCount" [] k = "customURL" -> "uRL" [] k = "customX" -> "x" [] k = "customCustomId" -> "customId" [] k = "customId2" -> "id2" [] k = "customLeadTime" -> "leadTime" [] k = "customName" -> "name" [] k = "customTarget" -> "target" [] OTHER -> k
Includes(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
\* ---------------------------------------------------------------- a log line
Name(c) == CASE c.name = "given" -> "given-name" [] c.name = "env" -> "env-name" [] OTHER -> "unknown lambda name"
Runtime(c) == CASE c.rt = "given" -> "given-rt" [] c.rt = "env" -> "env-rt" [] OTHER -> "unknown runtime"
\* the method is in front of the message unless the message names it
Based(m) == IF m.message # None /\ Includes(m.message, m.method) THEN m.message
            ELSE m.method \o " " \o (IF m.message = None THEN "" ELSE m.message)
ErrText(e) == CASE e = "error" -> Tx("Error: it broke") [] e = "typeerror" -> Tx("TypeError: wrong") [] e = "own" -> Tx("HttpError: 403") [] e = "string" -> Tx("plain text") [] e = "object" -> Tx("{\"code\":7,\"inner\":{\"a\":null}}")
               [] e = "circular" -> Tx("{\"name\":\"loop\",\"self\":\"[Circular]\"}") [] e = "bigint" -> Tx("{\"big\":\"5\"}") [] e = "shared" -> Tx("{\"a\":{\"k\":1},\"b\":{\"k\":1}}")
               [] OTHER -> Tx("")
IsError(e) == e \in {"error", "typeerror", "own"}
\* fields: a sequence of <<key, value>> that the caller gave
Line(c, level, m) ==
  LET base == Based(m)
      extra == {i \in DOMAIN m.fields : ~Includes(base, Field(m.fields[i][1]) \o "=")}
      given == {i \in DOMAIN m.fields : m.fields[i][2] # "undefined"}
      At(k) == CHOOSE i \in given : Field(m.fields[i][1]) = k
      fields == [k \in {Field(m.fields[i][1]) : i \in given} |-> JsonOf(m.fields[At(k)][2])]
      fixed == [level |-> Tx(level), method |-> Tx(m.method), lambdaName |-> Tx(Name(c)), runtime |-> Tx(Runtime(c))]
      err == IF m.error \in {None, "undefined", "nothing"} THEN <<>> ELSE [error |-> ErrText(m.error)]
      st == IF m.stack # None THEN [stack |-> Tx(m.stack)] ELSE IF IsError(m.error) THEN [stack |-> Tx("stack of " \o m.error)] ELSE <<>>
  IN [base |-> base, appended |-> {Field(m.fields[i][1]) \o "=" \o Text(m.fields[i][2]) : i \in extra}, json |-> fixed @@ err @@ st @@ fields]
\* ---------------------------------------------------------------- other callers of the logger
DebugJson(x) == CASE x = "string" -> [message |-> Tx("some text")] [] x = "object" -> [message |-> [o |-> "{\"code\":7,\"inner\":{\"a\":null}}"]] [] x = "circular" -> [message |-> [o |-> "{\"name\":\"loop\",\"self\":\"[Circular]\"}"]]
                  [] x = "bigint" -> [message |-> Tx("5")] [] x = "num" -> [message |-> [n |-> "42"]] [] OTHER -> <<>>
ExText(e) == CASE e = "error" -> "it broke" [] e = "typeerror" -> "wrong" [] e = "own" -> "403" [] e = "undefined" -> "undefined" [] OTHER -> ErrText(e).t
ExLine(c, e, withStack) == Line(c, "ERROR", [method |-> "fn.logException", message |-> "error=" \o ExText(e), fields |-> <<<<"type", "Error">>>>, error |-> None,
                                stack |-> IF IsError(e) /\ withStack THEN "stack of " \o e ELSE None])
DefaultCfg == [name |-> "env", rt |-> "env"]
Safe == {"0", "5", "-3"}
LeadLine(x, name, v) == Line(DefaultCfg, "INFO", [method |-> "LeadTimeLogging.logLeadTime", message |-> None, error |-> None, stack |-> None,
    fields |-> (IF x.extra \in {None, "customName", "customTarget"} THEN <<>> ELSE <<<<x.extra, "str">>>>) \o <<<<"customLeadTime", "true">>, <<"customName", name>>, <<"customTarget", x.target>>, <<"tookMs", v>>>>])
LeadLines(x) == (IF x.lead \in Safe THEN <<LeadLine(x, "lead-time", x.lead)>> ELSE <<>>) \o (IF x.process \in Safe THEN <<LeadLine(x, "process-time", x.process)>> ELSE <<>>)
\* ---------------------------------------------------------------- texts cut to a limit
Alpha100 == "0123 5678901 34567 9abcdefghij lmnop rstuvwxyzABCDEF HIJKLMNOP RSTU WXYZ.,:;-_/?!%&()=+*<>[]{}@#$^~"
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
Alpha == Times(Alpha100, 12)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = " " THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
Input(x) == SubSeq(Alpha, x.from, x.from + x.n - 1)
Max(x) == IF x.max < 0 THEN 1000 ELSE x.max
Marker(k) == "[TRUNCATED " \o ToString(k) \o " CHARS]"
Cut(x) == LET s == Input(x) over == x.n - Max(x) IN
  IF over <= 0 \/ over <= Len(Marker(over)) THEN s
  ELSE IF x.fn = "end" THEN Trim(SubSeq(s, 1, Max(x))) \o " " \o Marker(over)
  ELSE LET half == Max(x) \div 2 IN Trim(SubSeq(s, 1, half)) \o " " \o Marker(over) \o " " \o Trim(SubSeq(s, x.n - half + 1, x.n))
\* ---------------------------------------------------------------- transitions
NoFac == [log |-> "default", err |-> "none", n |-> 0]
Init == /\ mode \in Modes /\ cfg \in (IF mode \in {"lines", "errors"} THEN Configs ELSE {DefaultCfg}) /\ fac = NoFac /\ now = 0 /\ runs = <<>>
        /\ out = [kind |-> "none"] /\ act = [op |-> "init"]
Still == UNCHANGED <<mode, cfg, fac, now, runs>>
Wrote(ls) == [kind |-> "wrote", lines |-> ls, untouched |-> TRUE]
Log(level, m) == out' = Wrote(<<Line(cfg, level, m)>>) /\ Still
Debug(x) == out' = [kind |-> "debug", json |-> DebugJson(x) @@ [level |-> Tx("DEBUG"), lambdaName |-> Tx(Name(cfg)), runtime |-> Tx(Runtime(cfg))]] /\ Still
\* a curried logger without a logger of its own uses a new one with the settings of the environment
Exception(e, how, withStack) == out' = Wrote(<<ExLine(IF how = "curriednew" THEN [name |-> IF cfg.name = "none" THEN "none" ELSE "env", rt |-> IF cfg.rt = "none" THEN "none" ELSE "env"] ELSE cfg, e, withStack)>>) /\ Still
Lead(x) == out' = Wrote(LeadLines(x)) /\ Still
Truncate(x) == out' = [kind |-> "text", text |-> Cut(x)] /\ Still
\* the handler factory
Set(k, v) == /\ fac.n = 0 /\ fac' = [fac EXCEPT ![k] = v] /\ out' = [kind |-> "none"] /\ UNCHANGED <<mode, cfg, now, runs>>
Create == /\ fac.n < Handlers /\ fac' = [fac EXCEPT !.n = @ + 1] /\ out' = [kind |-> "none"] /\ UNCHANGED <<mode, cfg, now, runs>>
Begin(h, e) == /\ h \in 1..fac.n /\ Len(runs) < MaxRuns /\ runs' = Append(runs, [h |-> h, at |-> now, open |-> TRUE])
               /\ out' = [kind |-> "running", handler |-> h, event |-> e] /\ UNCHANGED <<mode, cfg, fac, now>>
Wait(ms) == /\ \E i \in DOMAIN runs : runs[i].open
            /\ now' = now + ms /\ out' = [kind |-> "none"] /\ UNCHANGED <<mode, cfg, fac, runs>>
\* it answers what the handler answers, or what the error handler makes of its error; the time it took is logged once either way
Finish(i, how) ==
  /\ i \in DOMAIN runs /\ runs[i].open /\ runs' = [runs EXCEPT ![i].open = FALSE] /\ UNCHANGED <<mode, cfg, fac, now>>
  /\ LET took == now - runs[i].at h == runs[i].h IN
     out' = [kind |-> "settled",
       answer |-> IF how = "ok" THEN "answer " \o ToString(h) ELSE IF fac.err = "none" THEN "threw failure " \o ToString(h)
                  ELSE IF fac.err = "answer" THEN "made of failure " \o ToString(h) \o " with logger " \o ToString(h) ELSE "threw other for failure " \o ToString(h),
       logged |-> IF fac.log = "custom" THEN <<[by |-> "custom of logger " \o ToString(h), took |-> took]>>
                  ELSE <<[by |-> IF fac.log = "default" THEN "default logger" ELSE "logger " \o ToString(h), took |-> took]>>]
Do(a) == /\ CASE a.op = "log" -> Log(a.level, a.m) [] a.op = "debug" -> Debug(a.x) [] a.op = "exception" -> Exception(a.e, a.how, a.st) [] a.op = "lead" -> Lead(a.x)
              [] a.op = "truncate" -> Truncate(a.x) [] a.op = "set" -> Set(a.k, a.v) [] a.op = "create" -> Create [] a.op = "begin" -> Begin(a.h, a.e)
              [] a.op = "wait" -> Wait(a.ms) [] a.op = "finish" -> Finish(a.i, a.how)
         /\ act' = IF a.op = "truncate" THEN [op |-> "truncate", fn |-> a.x.fn, text |-> Input(a.x), max |-> a.x.max] ELSE a
Actions == CASE mode = "lines" -> Lines
             [] mode = "errors" -> {[op |-> "exception", e |-> e, how |-> h, st |-> s] : e \in Exceptions, h \in {"direct", "curried", "curriednew"}, s \in BOOLEAN} \cup {[op |-> "debug", x |-> x] : x \in Debugs}
             [] mode = "leads" -> {[op |-> "lead", x |-> x] : x \in Leads}
             [] mode = "texts" -> {[op |-> "truncate", x |-> x] : x \in Texts}
             [] OTHER -> Settings \cup {[op |-> "create"]} \cup {[op |-> "begin", h |-> h, e |-> "event " \o ToString(h)] : h \in 1..Handlers} \cup {[op |-> "wait", ms |-> d] : d \in Durations}
                         \cup {[op |-> "finish", i |-> i, how |-> how] : i \in 1..MaxRuns, how \in {"ok", "fail"}}
Next == \E a \in Actions : Do(a)
Spec == Init /\ [][Next]_vars
Bound == now <= 10
\* ---------------------------------------------------------------- invariants
\* a line names its level, method, function and runtime, and every field given appears in the JSON or in the message
Complete == out.kind = "wrote" => \A i \in DOMAIN out.lines : {"level", "method", "lambdaName", "runtime"} \subseteq DOMAIN out.lines[i].json /\ Includes(out.lines[i].base, out.lines[i].json.method.t)
\* cutting never makes a text longer by more than the blank it is joined with
Shorter == out.kind = "text" => Len(out.text) <= Len(act.text) + 1
Invariants == Complete /\ Shorter
Obs == out'
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs, l |-> TLCGet("level")]))
=============================================================================
