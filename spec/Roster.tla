------------------------------- MODULE Roster -------------------------------
(* The server, shaped like the implementation: worker threads that accept     *)
(* connections and take a place under the limit, one registry and one id       *)
(* counter shared by all workers, one keyspace with expirations, and per       *)
(* connection a reader that fills a channel and an answerer that drains it.     *)
(* Every critical section of the code is one action.  Each action a client can  *)
(* observe also feeds the contract (Contract.tla), so that TLC decides whether  *)
(* any interleaving of the design breaks a clause.                              *)
(*                                                                              *)
(* Bug selects a defective design: each one must be caught (it is a control     *)
(* that the contract is not vacuous), "none" is the design of the code.         *)
EXTENDS Contract

CONSTANTS Conns, Workers, Limit, Reqs, MaxSend, MaxNow, CanEnd, Bug

VARIABLES
    cl,       \* c -> client side: "idle", "open", "half", "closed"
    wk,       \* c -> the worker the kernel gave the connection to
    backlog,  \* w -> connections not accepted yet
    acc,      \* w -> connection accepted and waiting for a place (or 0)
    srv,      \* c -> "none", "serving", "dropped", "stopped", "forgotten", "over"
    net,      \* c -> requests sent and not read
    rd,       \* c -> reader: "on", "eof"
    chan,     \* c -> requests read and not answered
    ans,      \* c -> answerer: "on", "end"
    run,      \* c -> the CLIENT LIST in progress, or Idle
    out,      \* c -> replies not received yet
    stall,    \* c -> the client does not read and all that lies between is full
    free,     \* places left under the limit
    nextId, id, reg, nm,
    db, now, sent, s

vars == <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db,
          now, sent, s, stall>>

Idle == [k |-> "idle"]
NoEntry == [v |-> NoVal, exp |-> Inf]
Addr(c) == <<"addr", c>>
JunkReq == <<[k |-> "junk", v |-> ""]>>

Init ==
    /\ cl = [c \in Conns |-> "idle"]
    /\ wk = [c \in Conns |-> 0]
    /\ backlog = [w \in Workers |-> <<>>]
    /\ acc = [w \in Workers |-> 0]
    /\ srv = [c \in Conns |-> "none"]
    /\ net = [c \in Conns |-> <<>>]
    /\ rd = [c \in Conns |-> "on"]
    /\ chan = [c \in Conns |-> <<>>]
    /\ ans = [c \in Conns |-> "on"]
    /\ run = [c \in Conns |-> Idle]
    /\ out = [c \in Conns |-> <<>>]
    /\ stall = [c \in Conns |-> FALSE]
    /\ free = Limit
    /\ nextId = 0
    /\ id = [c \in Conns |-> -1]
    /\ reg = {}
    /\ nm = [c \in Conns |-> NoName]
    /\ db = <<>>
    /\ now = 0
    /\ sent = 0
    /\ s = Start(Limit, "L")

\* every connection is already served: for what happens afterwards
RECURSIVE Opened(_, _)
Opened(st, n) == IF n = 0 THEN st
                 ELSE Step(Opened(st, n - 1), [e |-> "conn", c |-> n, addr |-> Addr(n)])
InitServed ==
    /\ cl = [c \in Conns |-> "open"]
    /\ wk = [c \in Conns |-> CHOOSE w \in Workers : TRUE]
    /\ backlog = [w \in Workers |-> <<>>]
    /\ acc = [w \in Workers |-> 0]
    /\ srv = [c \in Conns |-> "serving"]
    /\ net = [c \in Conns |-> <<>>]
    /\ rd = [c \in Conns |-> "on"]
    /\ chan = [c \in Conns |-> <<>>]
    /\ ans = [c \in Conns |-> "on"]
    /\ run = [c \in Conns |-> Idle]
    /\ out = [c \in Conns |-> <<>>]
    /\ stall = [c \in Conns |-> FALSE]
    /\ free = Limit - Cardinality(Conns)
    /\ nextId = Cardinality(Conns)
    /\ id = [c \in Conns |-> c - 1]
    /\ reg = Conns
    /\ nm = [c \in Conns |-> NoName]
    /\ db = <<>>
    /\ now = 0
    /\ sent = 0
    /\ s = Opened(Start(Limit, "L"), Cardinality(Conns))

---------------------------------------------------------------------------
(* Clients                                                                    *)
\* connections are opened in order, it is a symmetry
Connect(c, w) ==
    /\ cl[c] = "idle"
    /\ \A d \in Conns : d < c => cl[d] # "idle"
    /\ cl' = [cl EXCEPT ![c] = "open"]
    /\ wk' = [wk EXCEPT ![c] = w]
    /\ backlog' = [backlog EXCEPT ![w] = Append(@, c)]
    /\ s' = Step(s, [e |-> "conn", c |-> c, addr |-> Addr(c)])
    /\ UNCHANGED <<acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, stall>>

Send(c, q) ==
    /\ cl[c] = "open"
    /\ sent < MaxSend
    /\ sent' = sent + 1
    /\ net' = [net EXCEPT ![c] = Append(@, q)]
    /\ s' = Step(s, IF q = JunkReq THEN [e |-> "junk", c |-> c]
                    ELSE [e |-> "send", c |-> c, tl |-> now, args |-> q, res |-> "?"])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, stall>>

Recv(c) ==
    /\ cl[c] \in {"open", "half"}
    /\ out[c] # <<>>
    /\ s.C[c].st # "eof"
    /\ out' = [out EXCEPT ![c] = Tail(@)]
    /\ stall' = [stall EXCEPT ![c] = FALSE]
    /\ s' = Step(s, [e |-> "recv", c |-> c, t |-> now, r |-> Head(out[c])])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, free, nextId, id, reg, nm, db, now, sent>>

\* the client stops reading: a reply more than all that lies between can hold is to be
\* written, so that the server must go on serving it
Stall(c) ==
    /\ "stall" \in CanEnd
    /\ cl[c] \in {"open", "half"}
    /\ srv[c] = "serving" /\ ans[c] = "on"
    /\ ~stall[c]
    /\ out[c] # <<>>
    /\ chan[c] # <<>> \/ run[c] # Idle
    /\ s.C[c].st # "eof"
    /\ stall' = [stall EXCEPT ![c] = TRUE]
    /\ s' = Step(s, [e |-> "backed", c |-> c])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent>>

SeeEof(c) ==
    /\ cl[c] \in {"open", "half"}
    /\ out[c] = <<>>
    /\ Bug = "early-out" => chan[c] = <<>>
    /\ srv[c] \in {"dropped", "stopped", "forgotten", "over"}
    /\ s.C[c].st # "eof"
    /\ s' = Step(s, [e |-> "eof", c |-> c])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, stall>>

\* something unread makes the end a reset, which may overtake the last replies
SeeReset(c) ==
    /\ cl[c] \in {"open", "half"}
    /\ net[c] # <<>>
    /\ srv[c] \in {"dropped", "stopped", "forgotten", "over"}
    /\ s.C[c].st # "eof"
    /\ out' = [out EXCEPT ![c] = <<>>]
    /\ s' = Step(s, [e |-> "rst", c |-> c, t |-> now])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, free, nextId, id, reg, nm, db, now, sent, stall>>

HalfClose(c) ==
    /\ "half" \in CanEnd
    /\ cl[c] = "open"
    /\ cl' = [cl EXCEPT ![c] = "half"]
    /\ s' = Step(s, [e |-> "half", c |-> c])
    /\ UNCHANGED <<wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, stall>>

Close(c) ==
    /\ "close" \in CanEnd
    /\ cl[c] \in {"open", "half"}
    /\ cl' = [cl EXCEPT ![c] = "closed"]
    /\ s' = Step(s, [e |-> "close", c |-> c])
    /\ UNCHANGED <<wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, stall>>

\* the client observes that c is not listed any more: only after the registry says so
Gone(c) ==
    /\ "gone" \in CanEnd
    /\ cl[c] # "idle"
    /\ srv[c] \in {"stopped", "forgotten", "over"}
    /\ s.C[c].gonei = Inf
    /\ s' = Step(s, [e |-> "gone", c |-> c])
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, stall>>

Tick ==
    /\ now < MaxNow
    /\ now' = now + 1
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, sent, s, stall>>

---------------------------------------------------------------------------
(* Workers                                                                    *)
\* a worker whose connection was refused something accepts no more
Dead(w) == Bug = "worker-dies" /\ \E c \in Conns : wk[c] = w /\ ans[c] = "end" /\ rd[c] = "on"

Accept(w) ==
    /\ acc[w] = 0
    /\ ~Dead(w)
    /\ backlog[w] # <<>>
    /\ acc' = [acc EXCEPT ![w] = Head(backlog[w])]
    /\ backlog' = [backlog EXCEPT ![w] = Tail(@)]
    /\ UNCHANGED <<cl, wk, srv, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

\* a place, then an id, then the registry: three critical sections
TakePlace(w) ==
    /\ acc[w] # 0
    /\ srv[acc[w]] = "none"
    /\ id[acc[w]] = -1
    /\ free > 0 \/ Bug = "no-limit"
    /\ free' = IF Bug = "no-limit" THEN free ELSE free - 1
    /\ nextId' = IF Bug = "id-race" THEN nextId ELSE nextId + 1
    /\ id' = [id EXCEPT ![acc[w]] = nextId]
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, run, out, reg, nm, db, now, sent, s, stall>>

Register(w) ==
    /\ acc[w] # 0
    /\ id[acc[w]] # -1
    /\ srv' = [srv EXCEPT ![acc[w]] = "serving"]
    /\ reg' = reg \cup {acc[w]}
    /\ nextId' = IF Bug = "id-race" THEN nextId + 1 ELSE nextId
    /\ acc' = [acc EXCEPT ![w] = 0]
    /\ UNCHANGED <<cl, wk, backlog, net, rd, chan, ans, run, out, free, id, nm, db, now, sent, s, stall>>

---------------------------------------------------------------------------
(* One connection: reader, channel, answerer                                  *)
Read(c) ==
    /\ srv[c] = "serving"
    /\ rd[c] = "on"
    /\ net[c] # <<>>
    /\ net' = [net EXCEPT ![c] = Tail(@)]
    /\ IF Head(net[c]) = JunkReq
       THEN rd' = [rd EXCEPT ![c] = "eof"] /\ chan' = chan
       ELSE chan' = [chan EXCEPT ![c] = Append(@, Head(net[c]))] /\ rd' = rd
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, ans, run, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

ReadEof(c) ==
    /\ srv[c] = "serving"
    /\ rd[c] = "on"
    /\ net[c] = <<>>
    /\ cl[c] \in {"half", "closed"}
    /\ rd' = [rd EXCEPT ![c] = "eof"]
    /\ chan' = IF Bug = "eof-drops" THEN [chan EXCEPT ![c] = <<>>] ELSE chan
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, ans, run, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

Entry(k) == IF k \in DOMAIN db THEN db[k] ELSE NoEntry
Put(k, en) == [x \in DOMAIN db \cup {k} |-> IF x = k THEN en ELSE db[x]]
Del(k) == IF Bug = "keep-expired" THEN Put(k, NoEntry) ELSE [x \in DOMAIN db \ {k} |-> db[x]]
\* where c finds key k: one store for all
Place(c, k) == IF Bug = "split-store" THEN <<c, k>> ELSE k

LineOf(c, name) == [id |-> id[c], addr |-> Addr(c), laddr |-> "L", name |-> name]

\* reply and new keyspace for an accepted command other than list
Do(c, o) ==
    CASE o.op = "ping" -> [r |-> [k |-> "simple", v |-> "PONG"], db |-> db, nm |-> nm]
      [] o.op = "echo" -> [r |-> [k |-> "bulk", v |-> o.val], db |-> db, nm |-> nm]
      [] o.op = "set" ->
            [r |-> [k |-> "simple", v |-> "OK"], nm |-> nm,
             db |-> Put(Place(c, o.key), [v |-> o.val,
                                exp |-> IF Bug = "keep-ttl" /\ Entry(Place(c, o.key)).exp # Inf
                                        THEN Entry(Place(c, o.key)).exp ELSE Plus(now, o.ttl)])]
      [] o.op = "get" ->
            LET en == Entry(Place(c, o.key))
                exp == en.v # NoVal /\ now > en.exp /\ Bug # "no-expiry"
            IN [r |-> IF en.v = NoVal \/ exp THEN [k |-> "null"] ELSE [k |-> "bulk", v |-> en.v],
                db |-> IF exp THEN Del(Place(c, o.key)) ELSE db, nm |-> nm]
      [] o.op = "id" -> [r |-> [k |-> "int", n |-> id[c]], db |-> db, nm |-> nm]
      [] o.op = "info" -> [r |-> LineOf(c, nm[c]) @@ [k |-> "line"], db |-> db, nm |-> nm]
      [] o.op = "getname" ->
            [r |-> IF nm[c] = NoName THEN [k |-> "null"] ELSE [k |-> "bulk", v |-> nm[c]],
             db |-> db, nm |-> nm]
      [] o.op = "setname" ->
            LET d == IF Bug = "shared-name" THEN 1 ELSE c
            IN IF ValidName(o.name) \/ Bug = "names-unchecked"
               THEN [r |-> [k |-> "simple", v |-> "OK"], db |-> db,
                     nm |-> [nm EXCEPT ![d] = IF o.name = "" THEN NoName ELSE o.name]]
               ELSE [r |-> [k |-> "error", v |-> "ERR"], db |-> db, nm |-> nm]
      [] o.op = "unknown" ->
            [r |-> [k |-> "error", v |-> "ERR unknown command '" \o o.name \o "'"], db |-> db, nm |-> nm]

Answer(c) ==
    /\ srv[c] = "serving" \/ (Bug = "early-out" /\ srv[c] # "none")
    /\ ans[c] = "on"
    /\ ~stall[c]
    /\ run[c] = Idle
    /\ chan[c] # <<>>
    /\ LET last == Bug = "swap" /\ Len(chan[c]) > 1
           o == Command(IF last THEN chan[c][Len(chan[c])] ELSE Head(chan[c]))
       IN /\ chan' = [chan EXCEPT ![c] = IF last THEN SubSeq(@, 1, Len(@) - 1) ELSE Tail(@)]
          /\ IF o.op = "reject"
             THEN /\ ans' = IF Bug = "skip-reject" THEN ans ELSE [ans EXCEPT ![c] = "end"]
                  /\ UNCHANGED <<run, out, db, nm>>
             ELSE IF o.op = "list"
             THEN /\ run' = [run EXCEPT ![c] = [k |-> "list", o |-> o, must |-> reg, seen |-> {},
                                                got |-> {}, lines |-> <<>>]]
                  /\ UNCHANGED <<ans, out, db, nm>>
             ELSE /\ LET x == Do(c, o)
                     IN /\ out' = [out EXCEPT ![c] = IF Bug = "forge" /\ o.op = "unknown"
                                                    THEN Append(@, x.r) \o <<[k |-> "simple", v |-> "OK"]>>
                                                    ELSE Append(@, x.r)]
                        /\ db' = x.db
                        /\ nm' = x.nm
                  /\ UNCHANGED <<ans, run>>
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, free, nextId, id, reg, now, sent, s, stall>>

\* CLIENT LIST visits the registry entry by entry, others move meanwhile
ListVisit(c) ==
    /\ run[c].k = "list"
    /\ \E d \in reg \ run[c].seen :
          /\ \A x \in reg \ run[c].seen : d <= x
          /\ run' = [run EXCEPT ![c].seen = @ \cup {d},
                     ![c].got = IF srv[d] = "serving" \/ srv[d] = "dropped" \/ Bug = "list-dead"
                                THEN @ \cup {d} ELSE @]
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

Shown(c, d) == /\ run[c].o.ty = "normal"
               /\ run[c].o.ids # {} => id[d] \in run[c].o.ids \/ Bug = "no-filter"

\* then reads the names one by one, then replies
ListName(c) ==
    /\ run[c].k = "list"
    /\ run[c].must \cap reg \subseteq run[c].seen
    /\ \E d \in run[c].got :
          /\ \A x \in run[c].got : d <= x
          /\ run' = [run EXCEPT ![c].got = @ \ {d},
                     ![c].lines = IF Shown(c, d) THEN Append(@, LineOf(d, nm[d])) ELSE @,
                     ![c].seen = reg \cup @]
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

ListReply(c) ==
    /\ run[c].k = "list"
    /\ ~stall[c]
    /\ run[c].must \cap reg \subseteq run[c].seen
    /\ run[c].got = {}
    /\ out' = [out EXCEPT ![c] = Append(@, [k |-> "lines", lines |-> run[c].lines])]
    /\ run' = [run EXCEPT ![c] = Idle]
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, ans, free, nextId, id, reg, nm, db, now, sent, s, stall>>

\* nothing left to answer, or the peer is not there to receive it
AnswerEnd(c) ==
    /\ srv[c] = "serving"
    /\ ans[c] = "on"
    /\ \/ rd[c] = "eof" /\ chan[c] = <<>> /\ run[c] = Idle
       \/ cl[c] = "closed" /\ out[c] # <<>>
    /\ ans' = [ans EXCEPT ![c] = "end"]
    /\ run' = [run EXCEPT ![c] = Idle]
    /\ UNCHANGED <<cl, wk, backlog, acc, srv, net, rd, chan, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

\* the socket is closed (what was read and not answered goes with it), then the entry
\* of the registry is marked, then removed, then the place is given back
Drop(c) ==
    /\ srv[c] = "serving"
    /\ ans[c] = "end" \/ (Bug = "early-out" /\ rd[c] = "eof" /\ stall[c])
    /\ Bug = "join-both" => rd[c] = "eof"
    /\ srv' = [srv EXCEPT ![c] = "dropped"]
    /\ chan' = IF Bug \in {"keep-queue", "early-out"} THEN chan ELSE [chan EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<cl, wk, backlog, acc, net, rd, ans, run, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

Stop(c) ==
    /\ srv[c] = "dropped"
    /\ srv' = [srv EXCEPT ![c] = "stopped"]
    /\ UNCHANGED <<cl, wk, backlog, acc, net, rd, chan, ans, run, out, free, nextId, id, reg, nm, db, now, sent, s, stall>>

Forget0(c) ==
    /\ srv[c] = "stopped"
    /\ srv' = [srv EXCEPT ![c] = "forgotten"]
    /\ reg' = IF Bug = "keep-entry" THEN reg ELSE reg \ {c}
    /\ UNCHANGED <<cl, wk, backlog, acc, net, rd, chan, ans, run, out, free, nextId, id, nm, db, now, sent, s, stall>>

Release(c) ==
    /\ srv[c] = "forgotten"
    /\ srv' = [srv EXCEPT ![c] = "over"]
    /\ free' = IF Bug = "leak-place" /\ rd[c] = "on" THEN free ELSE free + 1
    /\ UNCHANGED <<cl, wk, backlog, acc, net, rd, chan, ans, run, out, nextId, id, reg, nm, db, now, sent, s, stall>>

Server(c) == Read(c) \/ ReadEof(c) \/ Answer(c) \/ ListVisit(c) \/ ListName(c) \/ ListReply(c)
             \/ AnswerEnd(c) \/ Drop(c) \/ Stop(c) \/ Forget0(c) \/ Release(c)
Worker(w) == Accept(w) \/ TakePlace(w) \/ Register(w)
Client(c) == \/ \E w \in Workers : Connect(c, w)
             \/ \E q \in Reqs : Send(c, q)
             \/ Recv(c) \/ SeeEof(c) \/ SeeReset(c) \/ HalfClose(c) \/ Close(c) \/ Gone(c) \/ Stall(c)

Next == \/ \E c \in Conns : Client(c) \/ Server(c)
        \/ \E w \in Workers : Worker(w)
        \/ Tick

Spec == Init /\ [][Next]_vars
Fairness == /\ \A c \in Conns : /\ WF_vars(Server(c)) /\ WF_vars(Recv(c)) /\ WF_vars(SeeEof(c))
            /\ \A w \in Workers : WF_vars(Worker(w))
FairSpec == Spec /\ Fairness
ServedSpec == InitServed /\ [][Next]_vars
FairServedSpec == ServedSpec /\ Fairness

---------------------------------------------------------------------------
Conforms == s.bad = {}

Held(c) == id[c] # -1 /\ srv[c] # "over"
PlacesExact == free + Cardinality({c \in Conns : Held(c)}) = Limit
WithinLimit == Cardinality({c \in Conns : srv[c] = "serving"}) <= Limit
IdsUnique == \A c, d \in Conns : c # d /\ id[c] # -1 => id[c] # id[d]
\* replies and pending requests account for every request read, in order
RepliesMatch == \A c \in Conns :
    cl[c] \in {"open", "half"} /\ s.C[c].st # "eof" => Len(out[c]) <= Len(s.C[c].pend)

\* what is over leaves nothing: no entry, no requests, no list in progress, and no key
\* that has no value
LeavesNothing ==
    /\ \A c \in Conns : srv[c] = "over" => c \notin reg /\ chan[c] = <<>> /\ run[c] = Idle
    /\ \A k \in DOMAIN db : db[k] # NoEntry
\* of the registry, only what is served or on its way out is kept
RegistryExact == reg \subseteq {c \in Conns : srv[c] \in {"serving", "dropped", "stopped"}}

Pend(c) == IF c \in DOMAIN s.C THEN s.C[c].pend ELSE <<>>
EofSeen(c) == IF c \in DOMAIN s.C THEN s.C[c].st = "eof" ELSE FALSE
\* every request of a connection that goes on being served is answered, and every end is seen
Answered == \A c \in Conns : (srv[c] = "serving" /\ Pend(c) # <<>>) ~> (cl[c] = "closed" \/ Pend(c) = <<>>)
EndSeen == \A c \in Conns : (cl[c] = "half" /\ srv[c] = "serving") ~> (cl[c] = "closed" \/ EofSeen(c))
\* a connection waits only while others hold all the places
Served == \A c \in Conns : cl[c] = "open" ~> (srv[c] # "none" \/ free = 0 \/ cl[c] # "open")
\* a refused request ends the connection, and the client sees it
Refused(c) == \E i \in 1..Len(Pend(c)) : Pend(c)[i].op = "reject"
RefusalEnds == \A c \in Conns : (srv[c] = "serving" /\ Refused(c)) ~> (cl[c] = "closed" \/ EofSeen(c))
\* a connection that was served and is over keeps nothing
PlaceBack == \A c \in Conns : (cl[c] = "closed" /\ srv[c] # "none") ~> (srv[c] = "over")
\* and leaves the registry, also when the server ended it and the client stays
Forgotten == \A c \in Conns : (cl[c] = "closed" /\ srv[c] # "none") ~> (c \notin reg)
RefusalForgotten == \A c \in Conns : (srv[c] = "serving" /\ Refused(c)) ~> (c \notin reg)
=============================================================================
