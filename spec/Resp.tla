-------------------------------- MODULE Resp --------------------------------
(* The grammar of frames (RESP2 types and the RESP3 map), as a function from   *)
(* texts to verdicts, and an enumeration of texts:  every text over a token    *)
(* alphabet that is the beginning of a frame is extended in every way, and     *)
(* every text reached gets a verdict, printed as a vector that is replayed     *)
(* through the parser of the implementation.                                   *)
(*                                                                            *)
(* A verdict is a record [a |-> allowed outcomes, n |-> bytes of the frame,    *)
(* v |-> its value] where the outcomes are                                     *)
(*   "ok"  accepted, n bytes are consumed and the value is v                    *)
(*   "inc" more bytes are needed                                               *)
(*   "err" refused                                                             *)
(* The beginning of a valid frame must be "inc", a complete valid frame "ok",   *)
(* whatever follows it, a complete malformed one "err"; "inc" or "err" when no  *)
(* continuation is valid but the text is cut before that is plain, or when it   *)
(* is an item of an array that is malformed.                                   *)
(*                                                                            *)
(* The byte 0xff is written "~" (no other use of "~"), so texts are TLA+        *)
(* strings.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens, MaxTokens, DeepEnough, MaxLen

Chr(s, i) == SubSeq(s, i, i)
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits == {DigitSeq[i] : i \in 1..10}
DigitVal == [d \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = d) - 1]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in Digits
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, 10 * acc + DigitVal[Chr(s, i)])
U64Max == "18446744073709551615"
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE LET x == DigitVal[Chr(a, i)]  y == DigitVal[Chr(b, i)]
         IN IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE LexLeq(a, b, i + 1)
IsU64(s) == AllDigits(s) /\ (Len(s) < 20 \/ (Len(s) = 20 /\ LexLeq(s, U64Max, 1)))

RECURSIVE EndOfLine(_, _)
\* position of the first CR LF from i on, or 0
EndOfLine(s, i) ==
    IF i >= Len(s) THEN 0
    ELSE IF Chr(s, i) = "\r" /\ Chr(s, i + 1) = "\n" THEN i ELSE EndOfLine(s, i + 1)

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

OddLine(s) == \E i \in 1..Len(s) : Chr(s, i) \in {"\r", "\n", "~"}

\* Results: st is "ok" (next position p, value v, latitude lat: may also be refused),
\* "inc" (a beginning), "cut" (no continuation is valid, but it is cut before that is plain) or "err"
Ok(p, v, lat) == [st |-> "ok", p |-> p, v |-> v, lat |-> lat]
Inc == [st |-> "inc"]
Cut == [st |-> "cut"]
Err == [st |-> "err"]

\* a decimal line from i on: st, p, and its text as t
DecLine(s, i) ==
    LET e == EndOfLine(s, i)
    IN IF e = 0
       THEN LET rest == SubSeq(s, i, Len(s))
                body == IF Len(rest) > 0 /\ Chr(rest, Len(rest)) = "\r" THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest
            IN IF body = "" /\ rest = "" THEN Inc
               ELSE IF AllDigits(body) /\ IsU64(body) /\ (Len(body) = 1 \/ Chr(body, 1) # "0") THEN Inc
               ELSE Cut
       ELSE LET t == SubSeq(s, i, e - 1)
            IN IF IsU64(t) THEN Ok(e + 2, t, Len(t) > 1 /\ Chr(t, 1) = "0")
               ELSE IF AllDigits(StripZeros(t)) /\ IsU64(StripZeros(t)) THEN Ok(e + 2, StripZeros(t), TRUE)
               ELSE IF Len(t) > 1 /\ Chr(t, 1) = "+" /\ IsU64(SubSeq(t, 2, Len(t)))
                    THEN Ok(e + 2, SubSeq(t, 2, Len(t)), TRUE)
               ELSE Err

\* a length that no frame we build reaches
Huge(t) == Len(StripZeros(t)) > 6

RECURSIVE Value(_, _, _)
RECURSIVE Items(_, _, _, _, _, _)
Value(s, i, d) ==
    IF i > Len(s) THEN Inc
    ELSE LET ch == Chr(s, i)
         IN CASE ch \in {"+", "-"} ->
                   LET e == EndOfLine(s, i + 1)
                       t == SubSeq(s, i + 1, e - 1)
                       rest == SubSeq(s, i + 1, Len(s))
                   IN IF e = 0
                      THEN IF OddLine(IF Len(rest) > 0 /\ Chr(rest, Len(rest)) = "\r" THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest)
                           THEN Cut ELSE Inc
                      ELSE Ok(e + 2, <<IF ch = "+" THEN "S" ELSE "E", t>>, OddLine(t) \/ d > DeepEnough)
              [] ch = ":" ->
                   LET r == DecLine(s, i + 1)
                       e == EndOfLine(s, i + 1)
                   IN IF r.st = "ok" THEN Ok(r.p, <<"I", StripZeros(r.v)>>, r.lat \/ d > DeepEnough)
                      \* negative integers exist in the protocol but not in this server
                      ELSE IF r.st = "cut" /\ i < Len(s) /\ Chr(s, i + 1) \in {"-", "+"} THEN Cut
                      ELSE r
              [] ch = "$" ->
                   IF i < Len(s) /\ Chr(s, i + 1) = "-"
                   THEN LET e == EndOfLine(s, i + 1)
                            rest == SubSeq(s, i + 1, Len(s))
                        IN IF e = 0 THEN IF rest \in {"-", "-1", "-1\r"} THEN Inc ELSE Cut
                           ELSE IF SubSeq(s, i + 1, e - 1) = "-1" THEN Ok(e + 2, <<"N">>, d > DeepEnough)
                           \* (too short to be judged: more may be waited for, but it is never accepted)
                           ELSE IF Len(s) < i + 4 THEN Cut ELSE Err
                   ELSE LET r == DecLine(s, i + 1)
                        IN IF r.st # "ok" THEN r
                           ELSE IF Huge(r.v) THEN Cut
                           ELSE LET n == NumFrom(r.v, 1, 0)
                                    left == Len(s) - r.p + 1
                                IN IF left < n THEN (IF r.lat THEN Cut ELSE Inc)
                                   ELSE IF left = n THEN (IF r.lat THEN Cut ELSE Inc)
                                   ELSE IF Chr(s, r.p + n) # "\r" THEN (IF left < n + 2 THEN Cut ELSE Err)
                                   ELSE IF left < n + 2 THEN (IF r.lat THEN Cut ELSE Inc)
                                   ELSE IF Chr(s, r.p + n + 1) # "\n" THEN Err
                                   ELSE Ok(r.p + n + 2, <<"B", SubSeq(s, r.p, r.p + n - 1)>>, r.lat \/ d > DeepEnough)
              [] ch \in {"*", "%"} ->
                   LET r == DecLine(s, i + 1)
                       per == IF ch = "*" THEN 1 ELSE 2
                   IN IF r.st # "ok" THEN r
                      ELSE IF Huge(r.v) THEN Cut
                      ELSE LET x == Items(s, r.p, d + 1, per * NumFrom(r.v, 1, 0), <<>>, r.lat \/ d > DeepEnough)
                           IN IF x.st # "ok" THEN x
                              ELSE Ok(x.p, <<IF ch = "*" THEN "A" ELSE "M", x.v>>, x.lat)
              [] OTHER -> Err
\* (a latitude in an item is a latitude in the whole: what is refused may be refused early)
Items(s, p, d, n, acc, lat) ==
    IF n = 0 THEN Ok(p, acc, lat)
    ELSE LET r == Value(s, p, d)
         IN CASE r.st = "ok" -> Items(s, r.p, d, n - 1, Append(acc, r.v), lat \/ r.lat)
              [] r.st = "inc" -> IF lat \/ d > DeepEnough THEN Cut ELSE Inc
              \* a malformed item may be noticed at once or when all of it is there
              [] OTHER -> Cut

Result(s) == Value(s, 1, 0)
Allowed(r) ==
    CASE r.st = "ok" -> IF r.lat THEN {"ok", "err"} ELSE {"ok"}
      [] r.st = "inc" -> {"inc"}
      [] r.st = "cut" -> {"inc", "err"}
      [] r.st = "err" -> {"err"}

---------------------------------------------------------------------------
VARIABLES txt, left
vars == <<txt, left>>

Init == txt = "" /\ left = MaxTokens
Grow == /\ left > 0
        /\ Result(txt).st \in {"inc", "cut"}
        /\ \E t \in Tokens : /\ Len(txt) + Len(t) <= MaxLen
                             /\ txt' = txt \o t
        /\ left' = left - 1
Next == Grow
Spec == Init /\ [][Next]_vars

Report ==
    txt # "" =>
        LET r == Result(txt)
        IN PrintT("VEC " \o ToJson([s |-> txt, a |-> Allowed(r), n |-> IF r.st = "ok" THEN r.p - 1 ELSE 0,
                                    v |-> IF r.st = "ok" THEN r.v ELSE <<>>]))

\* The grammar itself: a strict prefix of a valid frame is the beginning of one, and
\* what follows a frame does not change it.
PrefixSafe ==
    LET r == Result(txt)
    IN r.st = "ok" /\ ~r.lat =>
         /\ r.p - 1 <= Len(txt)
         /\ \A k \in 0..(r.p - 2) : Result(SubSeq(txt, 1, k)).st = "inc"
         /\ \A t \in Tokens : Result(SubSeq(txt, 1, r.p - 1) \o t) = [r EXCEPT !.p = r.p]
\* a beginning stays one when it is cut
BeginningsClosed ==
    Result(txt).st = "inc" => \A k \in 0..Len(txt) : Result(SubSeq(txt, 1, k)).st = "inc"

View == txt
=============================================================================
