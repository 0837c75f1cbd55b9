------------------------------- MODULE EdgeMC --------------------------------
EXTENDS Edge
M(m) == [m |-> m, s |-> "-", n |-> 0, l |-> <<>>, ips |-> {}]
Ms(m, s) == [M(m) EXCEPT !.s = s]
Mn(m, n) == [M(m) EXCEPT !.n = n]
Ml(m, l) == [M(m) EXCEPT !.l = l]
Ip(name, ips) == [M("ip") EXCEPT !.s = name, !.ips = ips]
B(path, kind, host, key, mods) == [path |-> path, kind |-> kind, host |-> host, key |-> key, mods |-> mods]
D(name, of) == [name |-> name, of |-> of, log |-> TRUE, vpc |-> {}]
St(id, dists) == [id |-> id, dists |-> dists]
Web == B("*", "nginxPlain", "web.fi", "-", <<>>)
A1 == "one.api.fi"
A2 == "two.api.fi"

\* ---- building
OneOf(mods) == St("one", <<D("d1", <<Web, B("x/*", "s3", "bucket", "-", mods)>>)>>)
Handlers == {M("gzip"), M("cors"), M("corsFn"), Ip("p", {"1.1.1.1"}), Ms("cam", "cam.fi"), Mn("cut", 1), M("index"), M("lam"), M("ungzip"), M("uncors"), M("unfn")}
BuildStacks == {OneOf(<<a, b>>) : a, b \in Handlers} \cup {OneOf(<<a>>) : a \in Handlers}
  \cup {OneOf(<<a, b, M("cors")>>) : a \in {M("gzip"), M("corsFn"), M("index")}, b \in {M("ungzip"), M("uncors"), M("unfn")}}
  \cup {St("none", <<[D("d1", <<Web>>) EXCEPT !.log = FALSE]>>), St("empty", <<D("d1", <<>>)>>), St("nodef", <<D("d1", <<B("a/*", "api", A1, "-", <<>>)>>)>>), St("twodef", <<D("d1", <<Web, B("a/*", "s3", "bucket", "-", <<>>), Web>>)>>),
        St("novpc", <<D("d1", <<B("*", "vpc", "lb", "-", <<>>)>>)>>), St("vpc", <<[D("d1", <<B("*", "vpc", "lb", "-", <<Mn("timeout", 45)>>)>>) EXCEPT !.vpc = {"lb"}]>>), St("otherbad", <<D("d1", <<Web>>), D("d2", <<B("z", "s3", "b2", "-", <<>>)>>)>>),
        St("twodefs", <<D("d1", <<B("*", "redirect", "https://a.fi/", "-", <<>>), Web>>)>>)}

\* ---- requests
R == [d |-> 1, path |-> "/", query |-> <<>>, method |-> "GET", gzip |-> TRUE, https |-> TRUE, ip |-> "1.1.1.1", auth |-> "-", ans |-> 200, modified |-> "-", year |-> 0, says |-> "-", max |-> 0]
Rp(p) == [R EXCEPT !.path = p]
Q1 == <<<<"a", "1">>, <<"b", "2">>>>
Common == {Rp("/"), [Rp("/") EXCEPT !.gzip = FALSE], [Rp("/") EXCEPT !.https = FALSE], [Rp("/") EXCEPT !.method = "POST"], [Rp("/") EXCEPT !.method = "OPTIONS"], [Rp("/") EXCEPT !.method = "HEAD", !.gzip = FALSE]}

\* stacks whose behaviours lead to several origins, some of them to the same one in different ways
FlowStacks == {
  St("apis", <<D("d1", <<Web, B("api/one/*", "api", A1, "key-1", <<>>), B("api/two/*", "api", A2, "key-2", <<M("unkey")>>), B("api/*", "apiPlain", A2, "-", <<>>), B("exact", "nginx", "nginx.fi", "-", <<Mn("timeout", 50)>>)>>)>>),
  St("shared", <<D("d1", <<Web, B("a/*", "api", A1, "key-1", <<>>), B("b/*", "api", A1, "-", <<>>), B("c/*", "apiPlain", A1, "key-3", <<Mn("timeout", 60)>>), B("d/*", "nginxPlain", A1, "-", <<>>), B("e/*", "api", A1, "key-1", <<Mn("timeout", 10)>>), B("f/*", "api", A1, "key-9", <<>>), B("g/*", "api", A1, "key-1", <<>>)>>),
                   D("d2", <<B("a/*", "api", A1, "key-2", <<>>), B("b/*", "nginx", "other.fi", "-", <<>>), B("d/*", "nginxPlain", A1, "-", <<>>), Web>>)>>),
  St("lists", <<D("d1", <<Web, B("in/*", "nginxPlain", "in.fi", "-", <<Ip("office", {"1.1.1.1", "2.2.2.2"})>>)>>),
               D("d2", <<B("*", "nginxPlain", "other.fi", "-", <<Ip("office", {"3.3.3.3"})>>), B("in/*", "nginxPlain", "in.fi", "-", <<Ip("home", {"1.1.1.1"})>>)>>)>>),
  St("cams", <<D("d1", <<B("*", "s3", "camera-bucket", "-", <<Ms("cam", "first.fi")>>)>>), D("d2", <<Web, B("img/*", "s3", "old.s3.amazonaws.com", "-", <<Ms("cam", "second.fi")>>)>>)>>),
  St("pages", <<D("d1", <<Web, B("swagger/*", "swagger", "docs", "-", <<Mn("ttl", 120)>>), B("cut1/*", "s3", "files", "-", <<Mn("cut", 1)>>), B("cut2/*", "s3", "more.eu.s3", "-", <<Mn("cut", 2), M("corsFn")>>), B("mqtt*", "mqtt", "mq.fi", "-", <<>>),
                        B("keyed/*", "s3", "keyed", "-", <<Ml("keys", <<"a">>)>>), B("free/*", "apiPlain", A2, "-", <<Ml("keys", <<"b">>)>>)>>), D("d2", <<B("*", "redirect", "https://www.digitraffic.fi/there", "-", <<>>)>>)>>),
  St("lam", <<D("d1", <<B("*", "s3", "lam-bucket", "-", <<M("lam")>>)>>)>>) }
LamRequests ==
  {[Rp(p) EXCEPT !.query = q] : p \in {"/ui/tms/history", "/api/tms/v1/history"},
     q \in {<<<<"api", "m">>, <<"tyyppi", t>>, <<"piste", "2">>, x>> : t \in {"h", "vrk"}, x \in {<<"pvm", "2021-09-09">>, <<"viikko", "12">>}}
        \cup {<<<<"api", "m">>, <<"tyyppi", "h">>, <<"pistejoukko", "1">>, <<"viikko", "12">>, <<"loppu", "14">>, <<"suunta", "1">>, <<"suunta", "2">>>>,
              <<<<"api", "m">>, <<"tyyppi", "h">>, <<"pistejoukko", "1">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>, <<"viikko", "12">>, <<"loppu", "2021-01-02">>, <<"ryhma", "a">>, <<"ryhma", "b">>, <<"luokka", "k">>>>,
              <<<<"api", "m">>, <<"tyyppi", "vrk">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>, <<"ryhma", "a">>, <<"luokka", "k">>, <<"sisallytakaistat", "1">>>>,
              <<<<"api", "m">>, <<"tyyppi", "vrk">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>, <<"luokka", "k">>>>, <<<<"api", "m">>, <<"tyyppi", "h">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>, <<"luokka", "k">>, <<"luokka", "l">>>>,
              <<<<"tyyppi", "h">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>>>, <<<<"api", "m">>, <<"piste", "7">>, <<"pvm", "2021-01-01">>>>, <<<<"api", "m">>, <<"tyyppi", "h">>, <<"pvm", "2021-01-01">>>>,
              <<<<"api", "m">>, <<"tyyppi", "h">>, <<"piste", "7">>>>, <<<<"api", "m">>, <<"api", "n">>, <<"tyyppi", "h">>, <<"piste", "7">>, <<"pvm", "x">>>>, <<<<"api", "">>, <<"tyyppi", "h">>, <<"piste", "7">>, <<"pvm", "x">>>>}}
  \cup {Rp(p) : p \in {"/ui/tms/history", "/ui/tms/history/", "/ui/tms/history/index.html", "/ui/tms/history/js/app.js", "/ui/tms/history/logo.gif", "/favicon.ico", "/ui/tms/history/index.js", "/api/tms/v1/history"}}
  \cup {[Rp("/api/tms/v1/history/raw/lamraw_1234_" \o y[1] \o "_1.csv") EXCEPT !.year = y[2]] : y \in {<<"21", 21>>, <<"22", 22>>, <<"9", 9>>, <<"26", 26>>, <<"xx", 0>>}}
  \cup {[Rp("/api/tms/v1/history/raw/lamraw_1_22.csv") EXCEPT !.year = 22], Rp("/api/tms/v1/history/raw/lamraw.csv"), [Rp("/api/tms/v1/history/raw/2022/12/lamraw_1_22_3.csv") EXCEPT !.year = 22], Rp("/api/tms/v1/history/raw/2022/lamraw_1_20_3.csv"), [Rp("/ui/tms/history") EXCEPT !.ans = 404, !.query = <<<<"api", "m">>, <<"tyyppi", "h">>, <<"piste", "2">>, <<"pvm", "2021-09-09">>>>]}
FlowRequests(s) ==
  CASE s.id = "apis" -> {[Rp(p) EXCEPT !.query = q] : p \in {"/api/one/x", "/api/two/x", "/api/three/x", "/exact", "/exact/more", "/api", "/other", "/exactly"}, q \in {<<>>, Q1}}
                    \cup {[Rp(p) EXCEPT !.gzip = g, !.method = m] : p \in {"/api/one/x", "/api/two/x", "/api/three/x", "/exact", "/other"}, g \in {TRUE, FALSE}, m \in {"GET", "HEAD", "OPTIONS", "POST", "DELETE"}} \cup Common
    [] s.id = "shared" -> {Rp(p) : p \in {"/a/1", "/b/1", "/c/1", "/d/1", "/e/1", "/f/1", "/g/1", "/z"}} \cup {[Rp(p) EXCEPT !.d = 2] : p \in {"/a/1", "/b/1", "/d/1", "/z"}}
    [] s.id = "lists" -> {[Rp(p) EXCEPT !.d = d, !.ip = i] : p \in {"/", "/in/x"}, d \in {1, 2}, i \in {"1.1.1.1", "2.2.2.2", "3.3.3.3", "1.1.1.10", "1.1"}} \cup {[Rp("/in/x") EXCEPT !.method = "OPTIONS", !.ip = "9.9.9.9"]}
    [] s.id = "cams" -> {[Rp("/C1.jpg") EXCEPT !.method = m, !.ans = a, !.modified = t, !.query = q] : m \in {"GET", "HEAD"}, a \in {200, 403, 404, 304, 500}, t \in {"-", "lower", "Upper"}, q \in {<<>>, <<<<"versionId", "1">>>>}}
                    \cup {[Rp("/img/C2.jpg") EXCEPT !.d = 2, !.query = q] : q \in {<<>>, <<<<"versionId", "1">>>>}}
    [] s.id = "pages" -> {Rp(p) : p \in {"/swagger/", "/swagger/x/", "/swagger/a.js", "/swagger", "/cut1/a/b.txt", "/cut1/", "/cut2/a/b/c.txt", "/cut2/b", "/mqtt", "/mqtt/x", "/mq"}}
                    \cup {[Rp(p) EXCEPT !.query = Q1] : p \in {"/keyed/x", "/free/x", "/cut1/a/b", "/swagger/"}} \cup {[Rp(p) EXCEPT !.method = "POST"] : p \in {"/cut2/a/b/c.txt", "/mqtt", "/free/x"}}
                    \cup {[Rp("/any/thing") EXCEPT !.d = 2], [Rp("/") EXCEPT !.d = 2, !.method = "POST"], [Rp("/") EXCEPT !.d = 2, !.https = FALSE]}
    [] s.id = "lam" -> LamRequests
    [] OTHER -> {}
\* what is kept, for how long, and for whom
CacheDists == <<D("d1", <<Web, B("short/*", "api", A1, "k", <<Mn("ttl", 30)>>), B("keys/*", "nginxPlain", "n.fi", "-", <<Ml("keys", <<"a">>), Mn("ttl", 120)>>), B("mine/*", "apiPlain", A2, "-", <<Ml("headers", <<"Authorization">>)>>),
                                  B("other/*", "nginxPlain", "n.fi", "-", <<Ml("keys", <<"b">>), Mn("ttl", 120)>>),
                                  B("two/*", "nginxPlain", "n.fi", "-", <<Ml("keys", <<"a">>), Ml("keys", <<"b">>), Mn("ttl", 600)>>), B("odd/*", "apiPlain", A2, "-", <<Ml("keys", <<"Authorization">>)>>),
                                  B("both/*", "apiPlain", A2, "-", <<Ml("headers", <<"Authorization">>), Ml("headers", <<"Accept">>), Ml("keys", <<"a">>)>>),
                                  B("cam/*", "s3", "cams", "-", <<Ms("cam", "first.fi")>>), B("docs/*", "swagger", "docs", "-", <<>>)>>)>>
CacheStacks == {St(id, CacheDists) : id \in {"kept", "said", "sorts"}}
Fours == {Rp("/short/1"), [Rp("/short/1") EXCEPT !.query = <<<<"b", "3">>>>], [Rp("/keys/1") EXCEPT !.query = Q1], [Rp("/keys/1") EXCEPT !.query = <<<<"a", "1">>, <<"b", "3">>>>], [Rp("/keys/1") EXCEPT !.query = <<<<"a", "2">>>>],
   [Rp("/mine/1") EXCEPT !.auth = "x"], [Rp("/mine/1") EXCEPT !.auth = "y"], [Rp("/mine/1") EXCEPT !.method = "POST"], [Rp("/mine/1") EXCEPT !.auth = "x", !.gzip = FALSE], [Rp("/cam/1.jpg") EXCEPT !.ans = 404], Rp("/cam/1.jpg"), Rp("/docs/"), Rp("/docs/index.html"), [Rp("/keys/1") EXCEPT !.query = Q1, !.ans = 500],
   [Rp("/short/1") EXCEPT !.method = "HEAD"], [Rp("/short/1") EXCEPT !.auth = "z"]}
Says(r) == {[r EXCEPT !.says = "max", !.max = n] : n \in {10, 45, 999}} \cup {[r EXCEPT !.says = "no-store"]}
CacheRequests(s) == CASE s.id = "kept" -> Fours
   [] s.id = "said" -> Says(Rp("/short/1")) \cup Says(Rp("/keys/1")) \cup {Rp("/keys/1")}
   [] OTHER -> {[Rp(p) EXCEPT !.query = q] : p \in {"/other/1", "/two/1", "/both/1", "/mine/1"}, q \in {Q1, <<<<"a", "1">>>>}} \cup {[Rp(p) EXCEPT !.auth = "x"] : p \in {"/odd/1", "/both/1"}} \cup {Rp("/odd/1"), [Rp("/two/1") EXCEPT !.query = <<<<"a", "9">>, <<"b", "2">>>>]} \cup {[Rp("/odd/1") EXCEPT !.query = <<<<"Authorization", "1">>>>], [Rp("/odd/1") EXCEPT !.query = <<<<"Authorization", "2">>>>]}
NoTicks(s) == {}
CacheTicks(s) == CASE s.id = "kept" -> {29, 31, 60} [] s.id = "said" -> {9, 35, 55} [] OTHER -> {60}
MoreTicks(s) == {9, 29, 31, 60}
NoRequests(s) == {}
BuildRequests(s) == Common \cup {Rp("/x/"), Rp("/x/y/z.txt"), [Rp("/x/y") EXCEPT !.gzip = FALSE], [Rp("/x/y") EXCEPT !.ip = "9.9.9.9"]}
=============================================================================
