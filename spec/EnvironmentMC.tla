--------------------------- MODULE EnvironmentMC -----------------------------
EXTENDS Environment
V15 == [version |-> "15.4", major |-> "15"]
V16 == [version |-> "16.1", major |-> "16"]
Cl(enc, versions, mem, snap, vpc, writer, readers) ==
  [kind |-> "cluster", version |-> "15.4", encrypted |-> enc, versions |-> versions, memory |-> mem, snapshot |-> snap, vpc |-> vpc, writer |-> writer, readers |-> readers,
   endpoint |-> [pre |-> "", mid |-> "", post |-> ""], reader |-> ""]
Imp(pre, mid, post) == [Cl("-", <<V15>>, 0, "-", "-", "x", <<>>) EXCEPT !.kind = "import", !.endpoint = [pre |-> pre, mid |-> mid, post |-> post], !.reader = "stack-x.cluster-ro-abc.eu-west-1.rds.amazonaws.com"]
Good == Imp("stack-x", ".cluster", "-abc.eu-west-1.rds.amazonaws.com")
SomeNets == {[name |-> "first", net |-> "10.0", gateway |-> "-"], [name |-> "second", net |-> "172.16", gateway |-> "tgw-1"]}
SomeDbs == {Cl("-", <<V15>>, 0, "-", "-", "r6g.large", <<"r6g.large">>), Cl("yes", <<V15, V16>>, 1024, "snap-1", "-", "r6g.xlarge", <<>>),
            Cl("no", <<V16, V15>>, 65536, "-", "own", "r6g.large", <<"r5.large", "r6g.xlarge">>), Cl("yes", <<V15>>, 0, "-", "-", "r5.large", <<"r6g.large", "r6g.large", "r6g.large">>),
            Cl("-", <<V15>>, 0, "snap-2", "-", "r6g.large", <<>>), Cl("-", <<>>, 0, "-", "-", "r6g.large", <<>>), [Good EXCEPT !.kind = "both"], [Good EXCEPT !.kind = "none"], Good,
            Imp("other", ".cluster", ".x.cluster-y"), Imp("", ".cluster", "-abc"), Imp("plain.host", "", ".name")}
SomeProxies == {[cluster |-> "stack-x", name |-> "-", group |-> "sg-9"], [cluster |-> "c", name |-> "Mine", group |-> "sg-8"], [cluster |-> "", name |-> "-", group |-> "sg-9"]}
SomeIds == {[pre |-> p, mid |-> m, post |-> q] : p \in {"", "a-b", "a.b", "cluster"}, m \in {".cluster", ".clutter", ""}, q \in {"", "-x.rds", ".x.cluster-y"} }
          \ ({[pre |-> p, mid |-> ".clutter", post |-> ".x.cluster-y"] : p \in {"", "a-b", "a.b", "cluster"}} \cup {[pre |-> p, mid |-> "", post |-> ".x.cluster-y"] : p \in {"", "a-b", "a.b", "cluster"}})
=============================================================================
