------------------------------ MODULE WriteBuf ------------------------------
(* How replies reach a client that reads when it likes (C03).  A reply is      *)
(* encoded, handed to a buffer of Cap bytes piece by piece until all of it was  *)
(* taken, and the buffer is flushed; the socket takes as much as its window      *)
(* allows, possibly a part.  Bytes are <<reply, position>>.                     *)
EXTENDS Naturals, Sequences

CONSTANTS Sizes,    \* the lengths of the replies, in order
          Cap,      \* of the writer's buffer
          Window,   \* bytes the socket holds
          Bug

VARIABLES cur, left, wbuf, sock, rcv, st
vars == <<cur, left, wbuf, sock, rcv, st>>

Reply(j) == [x \in 1..Sizes[j] |-> <<j, x>>]
RECURSIVE UpTo(_)
UpTo(j) == IF j = 0 THEN <<>> ELSE UpTo(j - 1) \o Reply(j)
All == UpTo(Len(Sizes))
From(q, k) == SubSeq(q, k + 1, Len(q))

Init == cur = 0 /\ left = <<>> /\ wbuf = <<>> /\ sock = <<>> /\ rcv = <<>> /\ st = "next"

NextReply == /\ st = "next" /\ cur < Len(Sizes)
             /\ cur' = cur + 1 /\ left' = Reply(cur + 1) /\ st' = "write"
             /\ UNCHANGED <<wbuf, sock, rcv>>

\* into the buffer when there is room, else the buffer goes first; what is larger than the
\* whole buffer goes to the socket directly, which may take a part of it only
Buffer == /\ st = "write" /\ left # <<>>
          /\ Len(wbuf) + Len(left) <= Cap
          /\ wbuf' = wbuf \o left /\ left' = <<>>
          /\ UNCHANGED <<cur, sock, rcv, st>>
Spill == /\ st = "write" /\ left # <<>>
         /\ Len(wbuf) + Len(left) > Cap /\ wbuf # <<>>
         /\ st' = "spill"
         /\ UNCHANGED <<cur, left, wbuf, sock, rcv>>
Direct == /\ st = "write" /\ left # <<>>
          /\ Len(left) > Cap /\ wbuf = <<>>
          /\ \E k \in 1..Len(left) :
                /\ Len(sock) + k <= Window
                /\ sock' = sock \o SubSeq(left, 1, k)
                /\ left' = IF Bug = "drop-rest" THEN <<>> ELSE From(left, k)
          /\ UNCHANGED <<cur, wbuf, rcv, st>>
Written == /\ st = "write" /\ left = <<>>
           /\ st' = IF Bug = "no-flush" THEN "next" ELSE "flush"
           /\ UNCHANGED <<cur, left, wbuf, sock, rcv>>
Flush == /\ st \in {"flush", "spill"}
         /\ IF wbuf = <<>>
            THEN st' = (IF st = "flush" THEN "next" ELSE "write") /\ UNCHANGED <<wbuf, sock>>
            ELSE \E k \in 1..Len(wbuf) :
                    /\ Len(sock) + k <= Window
                    /\ sock' = sock \o SubSeq(wbuf, 1, k)
                    /\ wbuf' = IF Bug = "flush-once" THEN <<>> ELSE From(wbuf, k)
                    /\ UNCHANGED st
         /\ UNCHANGED <<cur, left, rcv>>
Client == \E k \in 1..Len(sock) : /\ rcv' = rcv \o SubSeq(sock, 1, k)
                                  /\ sock' = From(sock, k)
                                  /\ UNCHANGED <<cur, left, wbuf, st>>
Server == NextReply \/ Buffer \/ Spill \/ Direct \/ Written \/ Flush
Next == Server \/ Client
Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ WF_vars(Client)

\* what is on its way is what was to be sent, in order, nothing missing
Intact == LET way == rcv \o sock \o wbuf IN way = SubSeq(All, 1, Len(way))
Complete == LET n == Len(rcv) + Len(sock) + Len(wbuf) + Len(left)
            IN n = Len(UpTo(cur))
InWindow == Len(sock) <= Window /\ Len(wbuf) <= Cap
\* a client that goes on reading gets everything
Delivered == <>(rcv = All)
\* at rest the replies given so far have all arrived
AtRest == st = "next" /\ wbuf # <<>> => FALSE
=============================================================================
