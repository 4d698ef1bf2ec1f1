------------------------------ MODULE Requests ------------------------------
(* Enumerates requests, each with what it stands for (Commands.tla):           *)
(*   Shapes: every sequence of arguments of every kind after every command;     *)
(*   Names:  every letter case of every documented name, and every name that    *)
(*           differs from one by a letter.                                      *)
(* They are sent to the real server, whose answers the contract judges.         *)
EXTENDS Commands, Json

CONSTANTS Deep
VARIABLES req
vars == <<req>>

B(t) == [k |-> "b", v |-> t]
S(t) == [k |-> "s", v |-> t]
I(t) == [k |-> "i", v |-> t]
X == [k |-> "x", v |-> "~x"]
O == [k |-> "o", v |-> ""]

Name(r) == Lower(r[1].v)
Sub(r) == IF IsStr(r[2]) THEN Lower(r[2].v) ELSE ""

First == {B(n) : n \in {"ping", "GET", "Set", "hello", "CLIENT", "acl", "zz", ""}} \cup {S("ping"), S("get"), S("zz"), I("5"), X, O}
Plain == {B("k"), S("k"), I("5"), X, O}
Options == {B("ex"), S("PX"), B("nx"), B(""), I("5"), X, O}
Numbers == {B("7"), S("7"), I("7"), B("-1"), B("+7"), B("7x"), B(""), B("18446744073709551615"), B("18446744073709551616"), X, O}
Subs == {B(n) : n \in {"id", "INFO", "getname", "help", "Setname", "setinfo", "list", "zz"}} \cup {S("id"), S("list"), I("5"), X, O}
NamesOf == {B("nm"), S("nm"), B(""), B("a b"), I("5"), X, O}
Filters == {B("type"), S("ID"), B("normal"), B("Master"), B("0"), I("0"), B("zz"), X, O} \cup (IF Deep THEN {S("7")} ELSE {})

Grown(r) ==
    IF r = <<>> THEN First
    ELSE IF ~IsStr(r[1]) THEN (IF Len(r) < 2 THEN {B("k"), O} ELSE {})
    ELSE LET n == Len(r)  name == Name(r)
         IN CASE name \in {"ping", "get", "hello"} -> IF n < 3 THEN Plain ELSE {}
              [] name = "set" ->
                    IF n < 3 THEN Plain
                    ELSE IF n = 3 THEN Options
                    ELSE IF n = 4 THEN Numbers
                    ELSE IF n = 5 /\ Deep THEN {B("k"), B("ex"), I("5"), O} ELSE IF n = 5 THEN {B("ex")} ELSE {}
              [] name = "client" ->
                    IF n = 1 THEN Subs
                    ELSE LET sub == Sub(r)
                         IN CASE sub = "list" -> IF n < (IF Deep THEN 6 ELSE 5) THEN Filters ELSE {}
                              [] sub = "setname" -> IF n < 4 THEN NamesOf ELSE {}
                              [] sub = "setinfo" -> IF n < 5 THEN Plain ELSE {}
                              [] OTHER -> IF n < 3 THEN Plain ELSE {}
              [] name = "acl" -> IF n = 1 THEN {B("cat"), S("CAT"), B("zz"), I("5"), X, O} ELSE IF n < 4 THEN Plain ELSE {}
              [] OTHER -> IF n < 3 THEN Plain ELSE {}

ShapesInit == req = <<>>
ShapesNext == \E a \in Grown(req) : req' = Append(req, a)
ShapesSpec == ShapesInit /\ [][ShapesNext]_vars

---------------------------------------------------------------------------
Upper == [l \in {Alphabet[i] : i \in 1..26} |-> AlphabetU[CHOOSE i \in 1..26 : Alphabet[i] = l]]
RECURSIVE Cases(_)
Cases(w) == IF w = "" THEN {""}
            ELSE LET ch == Chr(w, 1)
                 IN {h \o t : h \in {ch, IF ch \in DOMAIN Upper THEN Upper[ch] ELSE ch}, t \in Cases(SubSeq(w, 2, Len(w)))}
Cut(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Ins(w, i, ch) == SubSeq(w, 1, i) \o ch \o SubSeq(w, i + 1, Len(w))
Sets(w, i, ch) == SubSeq(w, 1, i - 1) \o ch \o SubSeq(w, i + 1, Len(w))
Swap(w, i) == SubSeq(w, 1, i - 1) \o Chr(w, i + 1) \o Chr(w, i) \o SubSeq(w, i + 2, Len(w))
Near(w) ==
    ({Cut(w, i) : i \in 1..Len(w)}
     \cup {Ins(w, i, ch) : i \in 0..Len(w), ch \in {"a", "s", "X", "_", " ", "-", "0", "."}}
     \cup {Sets(w, i, ch) : i \in 1..Len(w), ch \in {"a", "s", "T", "0", "_"}}
     \cup {Swap(w, i) : i \in 1..(Len(w) - 1)}
     \cup {SubSeq(w, 1, i) : i \in 0..(Len(w) - 1)}
     \cup {SubSeq(w, i, Len(w)) : i \in 2..Len(w)}
     \cup {w \o w, w \o " " \o w}) \ {w}

\* a name with what comes before it and after it
Words == {
    <<<<>>, "ping", <<>>>>, <<<<>>, "ping", <<B("m")>>>>, <<<<>>, "get", <<B("k")>>>>, <<<<>>, "set", <<B("k"), B("v")>>>>,
    <<<<>>, "hello", <<>>>>, <<<<>>, "client", <<B("id")>>>>, <<<<>>, "acl", <<B("cat")>>>>,
    <<<<B("client")>>, "id", <<>>>>, <<<<B("client")>>, "info", <<>>>>, <<<<B("client")>>, "list", <<>>>>,
    <<<<B("client")>>, "list", <<B("id"), B("0")>>>>,
    <<<<B("client")>>, "getname", <<>>>>, <<<<B("client")>>, "setname", <<B("nm")>>>>, <<<<B("client")>>, "setinfo", <<B("k"), B("v")>>>>,
    <<<<B("client")>>, "help", <<>>>>, <<<<B("acl")>>, "cat", <<>>>>,
    <<<<B("set"), B("k"), B("v")>>, "ex", <<B("100000")>>>>, <<<<B("set"), B("k"), B("v")>>, "px", <<B("100000000")>>>>,
    <<<<B("client"), B("list")>>, "type", <<B("normal")>>>>, <<<<B("client"), B("list")>>, "id", <<B("0")>>>>,
    <<<<B("client"), B("list"), B("type")>>, "normal", <<>>>>, <<<<B("client"), B("list"), B("type")>>, "master", <<>>>>,
    <<<<B("client"), B("list"), B("type")>>, "replica", <<>>>>, <<<<B("client"), B("list"), B("type")>>, "pubsub", <<>>>> }
\* commands of the protocol that this server does not have
Others == {"del", "incr", "exists", "expire", "ttl", "mget", "mset", "getset", "setnx", "setex", "psetex", "append", "info", "echo", "quit",
           "auth", "select", "config", "command", "multi", "exec", "keys", "flushall", "flushdb", "shutdown", "dbsize", "type", "id", "list",
           "getname", "setname", "cat", "help", "ex", "px", "normal", "reset", "object", "debug", "subscribe", "publish", "eval", "watch"}
OtherSubs == {"kill", "pause", "reply", "tracking", "no-evict", "unblock", "caching", "getredir", "trackinginfo", "unpause", "no-touch",
              "cat", "set", "get", "ping", "whoami", "list users", "genpass", "setuser", "deluser", "load", "save", "log", "dryrun", "users"}
In(w, t) == {w[1] \o <<[k |-> kk, v |-> t]>> \o w[3] : kk \in {"b", "s"}}
CaseReqs == UNION {UNION {In(w, t) : t \in Cases(w[2])} : w \in Words}
NearReqs == UNION {{w[1] \o <<B(t)>> \o w[3] : t \in Near(w[2])} : w \in Words}
OtherReqs == {<<B(t)>> \o q : t \in Others, q \in {<<>>, <<B("k")>>, <<B("k"), B("v")>>, <<O, X, I("5")>>}}
          \cup {<<B(c), B(t)>> \o q : c \in {"client", "acl"}, t \in OtherSubs \ {"cat"}, q \in {<<>>, <<B("k")>>, <<O, X, I("5")>>}}
NamesInit == req \in CaseReqs \cup NearReqs \cup OtherReqs
NamesNext == UNCHANGED vars
NamesSpec == NamesInit /\ [][NamesNext]_vars

Report == PrintT("REQ " \o ToJson([q |-> req, op |-> Command(req).op]))

---------------------------------------------------------------------------
(* The grammar itself *)
Ops == {"reject", "unknown", "list", "help", "id", "info", "getname", "setname", "setinfo", "set", "get", "ping", "echo", "hello", "aclcat"}
TypeOK == Command(req).op \in Ops
\* the letter case and the encoding of names do not matter
Flip(a) == IF a.k = "b" THEN [a EXCEPT !.k = "s"] ELSE IF a.k = "s" THEN [a EXCEPT !.k = "b"] ELSE a
Recase(a) == IF IsStr(a) /\ ~IsToken(a.v) THEN [a EXCEPT !.v = Lower(@)] ELSE a
CaseBlind == req # <<>> =>
    /\ Command([req EXCEPT ![1] = Recase(@)]) = Command(req)
    /\ Command([i \in DOMAIN req |-> Flip(req[i])]) = Command(req)
\* what is unknown is unknown whatever follows
UnknownStays == Command(req).op = "unknown" =>
    \A a \in Plain : Command(Append(req, a)) = Command(req)
=============================================================================
