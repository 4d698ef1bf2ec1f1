----------------------------- MODULE RespStream -----------------------------
(* How requests are cut out of the bytes of a connection (C02).  The bytes of  *)
(* the stream are their positions, so that a byte that is lost, repeated or     *)
(* moved shows.  The client sends the stream in pieces and may stop anywhere;   *)
(* pieces reach the server in reads of any size, limited by what is there and   *)
(* by the room left in the buffer; the reader parses, then reads, in turn.      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Frames,   \* the lengths of the requests, in order
          Tail0,    \* bytes of a request that is never finished
          Room,     \* initial room of the buffer
          More,     \* what it grows by
          Low,      \* after a request, a buffer that holds less gets room again
          Bug

VARIABLES sent, buf, cap, got, out, st, fin, tries
vars == <<sent, buf, cap, got, out, st, fin, tries>>

RECURSIVE EndOf(_)
EndOf(j) == IF j = 0 THEN 0 ELSE EndOf(j - 1) + Frames[j]
Total == EndOf(Len(Frames)) + Tail0
Whole == {j \in 1..Len(Frames) : EndOf(j) <= sent}

Init == /\ sent = 0 /\ buf = <<>> /\ cap = Room /\ got = 0 /\ out = <<>>
        /\ st = "parse" /\ fin = FALSE /\ tries = 0

\* got: bytes read from the socket; those in got+1..sent are in the socket
ClientSend(k) == /\ ~fin /\ sent + k <= Total /\ sent' = sent + k
                 /\ UNCHANGED <<buf, cap, got, out, st, fin, tries>>
ClientEnd == /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<sent, buf, cap, got, out, st, tries>>

\* what the parser makes of the buffer: it can only tell by what is in it
FirstOf(b) == CHOOSE j \in 0..Len(Frames) :
                 \/ j > 0 /\ b # <<>> /\ b[1] = EndOf(j - 1) + 1
                 \/ j = 0 /\ ~\E i \in 1..Len(Frames) : b # <<>> /\ b[1] = EndOf(i - 1) + 1
Straight(b) == \A k \in 1..Len(b) : b[k] = b[1] + k - 1
Needs(b) == IF FirstOf(b) = 0 THEN Total + 1 ELSE Frames[FirstOf(b)] + (IF Bug = "wait-more" THEN 1 ELSE 0)

Parse ==
    /\ st = "parse"
    /\ IF buf # <<>> /\ Len(buf) >= Needs(buf) /\ (Bug # "one-each" \/ tries = 0)
       THEN LET n == Frames[FirstOf(buf)]
                rest == SubSeq(buf, n + 1, Len(buf))
            IN /\ out' = Append(out, SubSeq(buf, 1, n))
               /\ buf' = rest
               /\ cap' = IF Len(rest) < Low THEN Len(rest) + More ELSE IF cap - n > Len(rest) THEN cap - n ELSE Len(rest)
               /\ tries' = 1
               /\ UNCHANGED st
       ELSE /\ st' = "read"
            /\ tries' = 0
            /\ UNCHANGED <<out, buf, cap>>
    /\ UNCHANGED <<sent, got, fin>>

Grown == IF cap = Len(buf) /\ Bug # "no-room" THEN cap + More ELSE cap
New(k) == [x \in 1..k |-> got + x]
Read ==
    /\ st = "read"
    /\ LET room == Grown - Len(buf)
           there == sent - got
       IN \/ \E k \in 1..there :
                /\ k <= room
                /\ got' = got + k
                /\ buf' = IF Bug = "overwrite" /\ buf # <<>> THEN New(k) \o SubSeq(buf, k + 1, Len(buf)) ELSE buf \o New(k)
                /\ st' = "parse"
          \/ /\ (there = 0 /\ fin) \/ room = 0
             /\ st' = IF buf = <<>> THEN "clean" ELSE "broken"
             /\ UNCHANGED <<got, buf>>
    /\ cap' = Grown
    /\ UNCHANGED <<sent, out, fin, tries>>

Server == Parse \/ Read
Next == Server \/ ClientEnd \/ \E k \in 1..Total : ClientSend(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)

---------------------------------------------------------------------------
\* requests are cut where they end, whatever the segments
Faithful == \A j \in 1..Len(out) : j <= Len(Frames) /\ out[j] = [x \in 1..Frames[j] |-> EndOf(j - 1) + x]
\* the buffer is what was read and not cut out yet
Kept == Straight(buf) /\ (buf # <<>> => buf[Len(buf)] = got)
\* nothing but the client ends the stream, and what it ends in is known
EndRight == /\ st \in {"clean", "broken"} => fin /\ got = sent
            /\ st = "clean" => \E j \in 0..Len(Frames) : EndOf(j) = sent
            /\ st = "broken" => ~\E j \in 0..Len(Frames) : EndOf(j) = sent
\* at rest, everything that is whole has been cut out: no later byte is waited for
AtRest == ~ENABLED Server => Len(out) = Cardinality(Whole)
Answered == \A j \in 1..Len(Frames) : (EndOf(j) <= sent) ~> (Len(out) >= j)
=============================================================================
