------------------------------ MODULE MCRoster ------------------------------
(* Finite instances of Roster.tla; every .cfg picks one request set.          *)
EXTENDS Roster

A(t) == [k |-> "b", v |-> t]
Ping == <<A("PING")>>
Echo == <<A("Ping"), A("m")>>
Get(k) == <<A("get"), A(k)>>
Set(k, v) == <<A("SET"), A(k), A(v)>>
SetPx(k, v, n) == <<A("set"), A(k), A(v), A("px"), A(n)>>
ClientId == <<A("client"), A("id")>>
Info == <<A("client"), A("info")>>
ListAll == <<A("client"), A("list")>>
ListId(n) == <<A("client"), A("list"), A("id"), A(n)>>
ListMaster == <<A("client"), A("list"), A("type"), A("master")>>
SetName(n) == <<A("client"), A("setname"), A(n)>>
GetName == <<A("client"), A("getname")>>
Unk == <<A("FLY"), A("x")>>
BadGet == <<A("get")>>
BadSet == <<A("set"), A("k"), A("c"), A("nx")>>

KvReqs == {Set("k", "a"), Set("k", "b"), Get("k")}
Kv2Reqs == {Set("k", "a"), Set("j", "b"), Get("k"), Get("j")}
TtlReqs == {SetPx("k", "a", "1"), Set("k", "b"), Get("k")}
RegReqs == {ListAll, SetName("x"), ClientId}
RegReqs2 == {ListId("0"), ListMaster, SetName(""), Info, GetName}
NameReqs == {SetName("x"), SetName("y z"), SetName(""), GetName, Info}
PingReqs == {Ping}
IdReqs == {ClientId}
PipeReqs == {Ping, Echo, Unk, BadGet, JunkReq}
RejReqs == {Set("k", "a"), Get("k"), BadSet, JunkReq}
ListReqs == {ListAll}
TextReqs == {Unk, SetName("a=b"), SetName("y z"), GetName, ListAll}
Gone2 == {"close", "gone"}
PlainReqs == {Ping, Echo, Unk, GetName, Set("k", "a"), Get("k")}
RejReqs1 == {Ping, Echo, Unk, BadGet, Set("k", "a"), Get("k")}
AllEnds == {"half", "close", "gone"}
Ends2 == {"half", "close"}
StallOnly == {"stall"}
HalfOnly == {"half"}
HalfStall == {"half", "stall"}
EndsStall == {"half", "close", "stall"}
CloseOnly == {"close"}
NoEnds == {}
=============================================================================
