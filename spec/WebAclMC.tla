------------------------------ MODULE WebAclMC -------------------------------
(* Model values for WebAcl: the steps, lists and requests of the behaviours.         *)
EXTENDS WebAcl
AllSteps == {"userIp0", "managedAll", "managedTwo", "managedBad", "managedNone", "blacklist", "whitelist", "query", "userIp", "userIp1", "userIpPath",
             "anonIp", "anonIpPath", "anonByPath", "countUserIp", "countUserIp2", "countUserIpPath", "countAnonIp", "countAnonIpPath",
             "noUserIp", "noUserIpPath", "noAnonIp", "noAnonIpPath", "noAnonPath", "noAnonByPath", "noCountUserIp", "noCountUserIpPath", "noCountAnonIp", "noCountAnonIpPath",
             "body", "bodyTaken", "ownThrottle", "ownCount"}
NoSteps == {}
NoPlans == {}
NoRequests == {}
Pairs == {<<"userIp", "anonIp">>, <<"userIpPath", "anonIpPath">>, <<"anonIpPath", "anonIp">>, <<"userIp1", "userIpPath">>,
          <<"countAnonIp", "anonIp">>, <<"anonIp", "countAnonIp">>, <<"countUserIp", "countAnonIpPath">>,
          <<"anonByPath", "anonIp">>, <<"anonByPath", "userIp1">>, <<"ownCount", "body", "ownThrottle">>,
          <<"countUserIpPath", "userIp1", "query">>, <<"anonIp", "bodyTaken">>, <<"anonIp0">>, <<"anonIpPath0", "userIp0">>, <<"userIpPath0", "anonIpPath">>, <<"bodyTaken", "anonIp">>}
Filters == {<<"managedAll">>, <<"managedTwo", "blacklist">>, <<"managedBad", "query">>, <<"whitelist", "query", "blacklist">>, <<"query">>, <<"anonIp", "managedAll">>, <<"blacklist", "anonIp", "countAnonIp">>}
Clean == [group |-> "-", rule |-> "-"]
Req(ip, p, norm, m, u, sz, t) == [ip |-> ip, path |-> p, norm |-> norm, matches |-> m, user |-> u, size |-> sz, threat |-> t]
Flow == {Req("10.0.0.1", "/api/a", "/api/a", "^/api/.*$", u, 0, Clean) : u \in {"absent", "empty", "named"}}
        \cup {Req("10.0.0.2", "/API/a", "/api/a", "-", u, 0, Clean) : u \in {"absent", "named"}}
        \cup {Req("10.0.0.1", "/API/x/../a", "/api/a", "-", "named", 0, Clean),
              Req("10.0.0.1", "/API/x/../a", "/api/a", "-", "absent", 0, Clean), Req("10.0.0.1", "/c", "/c", "-", "absent", 0, Clean), Req("10.0.0.1", "/c", "/c", "-", "short", 0, Clean)}
FlowMore == Flow \cup {Req("10.0.0.1", "/own", "/own", "/own", "absent", 0, Clean), Req("10.0.0.1", "/b", "/b", "-", "named", 0, Clean), Req("10.0.0.1", "/b", "/b", "-", "empty", 0, Clean)}
Threats == {<<"CommonRuleSet", "GenericLFI_BODY">>, <<"CommonRuleSet", "NoUserAgent_HEADER">>, <<"CommonRuleSet", "SizeRestrictions_BODY">>, <<"CommonRuleSet", "GenericRFI_BODY">>, <<"CommonRuleSet", "NoSuchRule">>,
            <<"AmazonIpReputationList", "AWSManagedIPDDoSList">>, <<"AmazonIpReputationList", "AWSManagedIPReputationList">>,
            <<"KnownBadInputsRuleSet", "Log4JRCE_BODY">>, <<"KnownBadInputsRuleSet", "Host_localhost_HEADER">>, <<"SQLiRuleSet", "SQLi_BODY">>, <<"SQLiRuleSet", "SQLi_COOKIE">>}
Odd == {Req("10.0.0.9", "/a", "/a", "-", "absent", 0, [group |-> "AWSManagedRules" \o t[1], rule |-> t[2]]) : t \in Threats}
       \cup {Req(ip, "/a", "/a", "-", u, 0, Clean) : ip \in {"10.0.0.1", "10.0.0.2", "10.0.0.3", "172.16.0.7"}, u \in {"absent", "named"}}
       \cup {Req("10.0.0.2", "/a", "/a", "-", "named", z, Clean) : z \in {0, 9, 10, 11, 4000}}
=============================================================================
