---------------------------- MODULE StackChecksMC ----------------------------
EXTENDS StackChecks
Sk(nm, p, t) == [name |-> nm, production |-> p, tagged |-> t]
AllStacks == {Sk("MarineTest", TRUE, TRUE), Sk("MarineTest", FALSE, TRUE), Sk("RoadTst", TRUE, TRUE), Sk("RailProd", TRUE, TRUE), Sk("RailProd", FALSE, FALSE), Sk("RoadPrd", FALSE, TRUE), Sk("Road", TRUE, FALSE), Sk("Road", FALSE, TRUE), Sk("TestProd", TRUE, TRUE), Sk("TestProd", FALSE, TRUE)}
OneStack == {Sk("Road", FALSE, TRUE)}
W(a, b) == [a |-> a, b |-> b]
AllWhite == {<<>>, <<W("FNa", "timeout")>>, <<W("fnA", "TIMEOUT")>>, <<W("nothing", "")>>, <<W("Road/fn", "")>>, <<W("QUEUE_ENCRYPTION", ""), W("fnB/", "")>>, <<W("STACK_NAME", "")>>, <<W("/", "TAG"), W("RESOURCE", "PATH")>>, <<W("badName", ""), W("bucket", "PUBLICITY"), W("nothing", "x")>>}
FewWhite == {<<>>, <<W("ROAD/", "")>>, <<W("fnA", "TIMEOUT")>>, <<W("nothing", "")>>, <<W("Road/fn", "")>>, <<W("badName", ""), W("RESOURCE", "PATH")>>}
Good == [type |-> "function", id |-> "fnA", concurrency |-> 2, timeout |-> 10, memory |-> 128, runtime |-> "nodejs24.x", name |-> "T-x"]
Functions0 == {Good, [Good EXCEPT !.concurrency = 0], [Good EXCEPT !.concurrency = 100], [Good EXCEPT !.concurrency = 101], [Good EXCEPT !.timeout = 0], [Good EXCEPT !.memory = 0],
              [Good EXCEPT !.runtime = "nodejs18.x"], [Good EXCEPT !.runtime = "nodejs22.x"], [Good EXCEPT !.runtime = "python3.13"], [Good EXCEPT !.runtime = "python3.12"], [Good EXCEPT !.runtime = "-"],
              [Good EXCEPT !.name = "X-x"], [Good EXCEPT !.name = "Tx"], [Good EXCEPT !.name = "t-x"], [Good EXCEPT !.name = "X-T-x"],
              [Good EXCEPT !.concurrency = 1], [Good EXCEPT !.concurrency = 1000], [Good EXCEPT !.timeout = 900, !.memory = 10240],  [Good EXCEPT !.runtime = "nodejs26.x"], [Good EXCEPT !.runtime = "python3.9"], [Good EXCEPT !.runtime = "python3.11"], [Good EXCEPT !.runtime = "nodejs20.x"], [Good EXCEPT !.runtime = "provided.al2023", !.concurrency = 0], [Good EXCEPT !.name = "-"], [Good EXCEPT !.timeout = 0, !.memory = 0, !.concurrency = 0, !.runtime = "java8", !.name = "fT-x"]}
Bucket(o) == [type |-> "bucket", id |-> "bucket", open |-> o]
Buckets == {Bucket(o) : o \in {{}, {"none"}, {"acls"}, {"policy"}, {"ignore"}, {"restrict"}, {"acls", "policy"}, {"acls", "policy", "ignore", "restrict"}}}
P(i, nm, s) == [in |-> i, name |-> nm, snake |-> s]
Method(ps) == [type |-> "method", id |-> "method", params |-> ps]
Methods == {Method(<<>>), Method(<<P("querystring", "good_name", TRUE)>>), Method(<<P("querystring", "badName", FALSE)>>), Method(<<P("header", "badHeader", FALSE)>>), Method(<<P("path", "somePath", FALSE), P("querystring", "other-bad", FALSE), P("querystring", "id", TRUE)>>)}
Path(t, k) == [type |-> "path", id |-> "path", part |-> t, kebab |-> k]
Paths == {Path("kebab-case", TRUE), Path("camelCase", FALSE), Path("snake_case", FALSE), Path("v1", FALSE), Path("plain", TRUE), Path("data.json", TRUE), Path("badName.json", FALSE), Path("image-{id}", FALSE), Path("Upper", FALSE)}
Queue(e, k, nm) == [type |-> "queue", id |-> nm, encrypted |-> e, shape |-> k]
Logs(e, nm) == [type |-> "logs", id |-> nm, retained |-> e]
Shapes == {"plain", "fifo", "delayed", "with dead letters", "with everything"}
Others == {Queue(e, k, "queue") : e \in BOOLEAN, k \in Shapes} \cup {Logs(e, "logs") : e \in BOOLEAN}
Everything == Functions0 \cup Buckets \cup Methods \cup Paths \cup Others
Some == {[Good EXCEPT !.timeout = 0], [Good EXCEPT !.memory = 0, !.concurrency = 0, !.id = "fnB"], Bucket({"acls"}), Method(<<P("querystring", "badName", FALSE)>>), Path("camelCase", FALSE), Queue(FALSE, "plain", "queue"), Logs(FALSE, "logs")}
\* resources deeper in the tree, and more than one of a kind
Deep == {[Good EXCEPT !.timeout = 0, !.id = "inner/fnA"], [Good EXCEPT !.name = "X", !.id = "inner/inmost/fn"], [Bucket({"policy"}) EXCEPT !.id = "inner/bucket"], Queue(FALSE, "fifo", "inner/queue"), Queue(FALSE, "with dead letters", "queue2"),
         [Path("aB", FALSE) EXCEPT !.id = "inner/path"], [Method(<<P("querystring", "aB", FALSE), P("querystring", "cD", FALSE)>>) EXCEPT !.id = "inner/inmost/method"], Logs(FALSE, "inner/logs"), Good}
DeepWhite == {<<>>, <<W("inner", "TIMEOUT")>>, <<W("inmost", "")>>, <<W("queue2", ""), W("cD", "")>>}
=============================================================================
