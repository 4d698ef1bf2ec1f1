----------------------------- MODULE RosterGen -----------------------------
(* Behaviours of Roster.tla as client scripts: what the clients did, in the    *)
(* order of the behaviour.  Run with -simulate; every quiescent state prints   *)
(* its script, which the driver then plays against the real server.            *)
EXTENDS MCRoster, Json

VARIABLE log
gvars == <<vars, log>>

Note(a, c) == log' = Append(log, [a |-> a, c |-> c, args |-> <<>>])

GenInit == Init /\ log = <<>>
GenNext ==
    \/ \E c \in Conns :
          \/ \E w \in Workers : Connect(c, w) /\ Note("conn", c)
          \/ \E q \in Reqs : Send(c, q) /\ log' = Append(log, [a |-> "send", c |-> c, args |-> q])
          \/ Recv(c) /\ Note("recv", c)
          \/ (SeeEof(c) \/ SeeReset(c)) /\ Note("eof", c)
          \/ HalfClose(c) /\ Note("half", c)
          \/ Close(c) /\ sent > MaxSend \div 3 /\ Note("close", c)
          \/ Server(c) /\ UNCHANGED log
    \/ \E w \in Workers : Worker(w) /\ UNCHANGED log
    \/ Tick /\ Note("tick", 0)
GenSpec == GenInit /\ [][GenNext]_gvars

Quiet == /\ sent = MaxSend
         /\ \A c \in Conns : cl[c] # "idle"
         /\ \A c \in Conns : \/ srv[c] = "over" /\ (cl[c] = "closed" \/ s.C[c].st = "eof")
                             \/ cl[c] = "open" /\ s.C[c].pend = <<>>
                             \/ cl[c] = "open" /\ srv[c] = "none" /\ free = 0
Script == Quiet => PrintT("SCRIPT " \o ToJson(log))
=============================================================================
