------------------------------ MODULE Commands ------------------------------
(* The request grammar of roster: what each request means, whether it is      *)
(* accepted, and which reply it gets when that does not depend on shared      *)
(* state.  A request is a sequence of arguments; an argument is a record      *)
(*   [k |-> kind, v |-> text]                                                 *)
(* with kind "b" (bulk string, valid UTF-8), "s" (simple string, valid        *)
(* UTF-8), "x" (bulk string that is not UTF-8), "i" (integer, in decimal) or   *)
(* "o" (any other frame: null, error, array, map).  Texts that are long or not *)
(* printable ASCII are represented by an injective token that starts with "~". *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Alphabet == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
AlphabetU == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerMap == [u \in {AlphabetU[i] : i \in 1..26} |->
                Alphabet[CHOOSE i \in 1..26 : AlphabetU[i] = u]]

Chr(s, i) == SubSeq(s, i, i)
LowerChr(ch) == IF ch \in DOMAIN LowerMap THEN LowerMap[ch] ELSE ch
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerChr(Chr(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

IsToken(s) == Len(s) > 0 /\ Chr(s, 1) = "~"

Contains(s, sub) ==
    \E i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub

---------------------------------------------------------------------------
(* Numbers.  A duration is kept in milliseconds; from Far on it is "never"    *)
(* for any run we can observe (Far is about 11 days).                         *)
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits == {DigitSeq[i] : i \in 1..10}
DigitVal == [d \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = d) - 1]
Far == 1000000000

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in Digits
U64Max == "18446744073709551615"
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==      \* same length decimal strings
    IF i > Len(a) THEN TRUE
    ELSE LET x == DigitVal[Chr(a, i)]  y == DigitVal[Chr(b, i)]
         IN IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE LexLeq(a, b, i + 1)
IsU64(s) == /\ AllDigits(s)
            /\ \/ Len(s) < Len(U64Max)
               \/ Len(s) = Len(U64Max) /\ LexLeq(s, U64Max, 1)
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, 10 * acc + DigitVal[Chr(s, i)])
\* value of a decimal string, or Far when it is at least Far
Num(s) == IF Len(s) > 9 THEN Far ELSE NumFrom(s, 1, 0)
\* the duration in ms of "n" in the given unit
Millis(unit, s) ==
    LET n == Num(s)
    IN IF unit = "px" THEN n ELSE IF n >= Far \div 1000 THEN Far ELSE n * 1000

---------------------------------------------------------------------------
(* Accepted argument kinds, as the parser of the implementation has them.     *)
IsStr(a) == a.k \in {"b", "s"}            \* a UTF-8 string
IsBytes(a) == a.k \in {"b", "s", "x"}     \* any string
IsInt(a) == \/ a.k = "i"
            \/ a.k \in {"b", "s"} /\ ~IsToken(a.v) /\ IsU64(a.v)

NoName == "(none)"
Graphic == {Alphabet[i] : i \in 1..26} \cup {AlphabetU[i] : i \in 1..26} \cup Digits \cup
    {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",";","<","=",">","?","@",
     "[","\\","]","^","_","`","{","|","}","~"}
\* printable, without spaces; tokens stand for other texts
\* (long valid names are spelled with the prefix "~g:", see Tok in the driver)
ValidName(s) ==
    \/ Len(s) >= 3 /\ SubSeq(s, 1, 3) = "~g:"
    \/ ~IsToken(s) /\ \A i \in 1..Len(s) : Chr(s, i) \in Graphic

Reject == [op |-> "reject"]
Unknown(s) == [op |-> "unknown", name |-> s]

RECURSIVE ListArgs(_, _, _, _)
ListArgs(args, i, ty, ids) ==
    IF i > Len(args) THEN [op |-> "list", ty |-> ty, ids |-> ids]
    ELSE IF ~IsStr(args[i]) THEN Reject
    ELSE LET f == Lower(args[i].v)
         IN CASE f = "type" ->
                   IF i + 1 > Len(args) THEN [op |-> "list", ty |-> "normal", ids |-> ids]
                   ELSE IF ~IsStr(args[i + 1]) THEN Reject
                   ELSE LET t == Lower(args[i + 1].v)
                        IN IF t \in {"normal", "replica", "master", "pubsub"}
                           THEN ListArgs(args, i + 2, t, ids) ELSE Reject
              [] f = "id" ->   \* takes everything that follows
                   IF \A j \in (i + 1)..Len(args) : IsInt(args[j])
                   THEN [op |-> "list", ty |-> ty,
                         ids |-> ids \cup {Num(args[j].v) : j \in (i + 1)..Len(args)}]
                   ELSE Reject
              [] OTHER -> Reject

ClientCmd(args) ==
    IF Len(args) = 1 THEN [op |-> "help"]
    ELSE IF ~IsStr(args[2]) THEN Reject
    ELSE LET sub == Lower(args[2].v)
             n == Len(args)
         IN CASE sub = "id" -> IF n = 2 THEN [op |-> "id"] ELSE Reject
              [] sub = "info" -> IF n = 2 THEN [op |-> "info"] ELSE Reject
              [] sub = "getname" -> IF n = 2 THEN [op |-> "getname"] ELSE Reject
              [] sub = "help" -> IF n = 2 THEN [op |-> "help"] ELSE Reject
              [] sub = "setname" ->
                   IF n # 3 THEN Reject
                   ELSE IF ~IsStr(args[3]) THEN Reject
                   ELSE [op |-> "setname", name |-> args[3].v]
              [] sub = "setinfo" ->
                   IF n > 4 THEN Reject
                   ELSE IF n < 4 THEN [op |-> "setinfo"]   \* incomplete: nothing is looked at
                   ELSE IF \A j \in 3..n : IsBytes(args[j]) THEN [op |-> "setinfo"] ELSE Reject
              [] sub = "list" -> ListArgs(args, 3, "normal", {})
              [] OTHER -> Unknown(sub)

SetCmd(args) ==
    LET n == Len(args)
    IN IF n < 3 THEN Reject
       ELSE IF ~IsStr(args[2]) \/ ~IsBytes(args[3]) THEN Reject
       ELSE IF n = 3 THEN [op |-> "set", key |-> args[2].v, val |-> args[3].v, ttl |-> Far]
       ELSE IF n # 5 THEN Reject
       ELSE IF ~IsStr(args[4]) \/ ~IsInt(args[5]) THEN Reject
       ELSE LET unit == Lower(args[4].v)
            IN IF unit \in {"ex", "px"}
               THEN [op |-> "set", key |-> args[2].v, val |-> args[3].v,
                     ttl |-> Millis(unit, args[5].v)]
               ELSE Reject

\* the command a request stands for
Command(args) ==
    IF Len(args) = 0 THEN Reject
    ELSE IF ~IsStr(args[1]) THEN Reject
    ELSE LET name == Lower(args[1].v)
             n == Len(args)
         IN CASE name = "ping" ->
                   IF n = 1 THEN [op |-> "ping"]
                   ELSE IF n = 2 /\ IsBytes(args[2]) THEN [op |-> "echo", val |-> args[2].v]
                   ELSE Reject
              [] name = "get" ->
                   IF n = 2 /\ IsStr(args[2]) THEN [op |-> "get", key |-> args[2].v] ELSE Reject
              [] name = "set" -> SetCmd(args)
              [] name = "hello" -> IF n = 1 THEN [op |-> "hello"] ELSE Reject
              [] name = "client" -> ClientCmd(args)
              [] name = "acl" ->
                   IF n = 1 \/ ~IsStr(args[2]) THEN Reject
                   ELSE IF Lower(args[2].v) # "cat" THEN Unknown(Lower(args[2].v))
                   ELSE IF n <= 3 THEN [op |-> "aclcat"] ELSE Reject
              [] OTHER -> Unknown(name)

HelpLines == 19
=============================================================================
