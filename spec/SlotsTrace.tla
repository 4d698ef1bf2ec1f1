----------------------------- MODULE SlotsTrace -----------------------------
(* What the implementation gave for numbers of parts and for keys, against     *)
(* Slots.tla. One state for each record.                                       *)
EXTENDS Slots, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.RECORDS)
Splits == In.splits
Keys == In.keys

VARIABLES kind, i
vars == <<kind, i>>
Init == \/ kind = "split" /\ i \in 1..Len(Splits)
        \/ kind = "key" /\ i \in 1..Len(Keys)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

SplitWrong(r) ==
    (IF Len(r.ranges) # r.n THEN {"number of parts"} ELSE {})
    \cup (IF ~Partition(r.ranges) THEN {"not a partition of the slots"} ELSE {})
    \cup (IF r.ranges # <<>> /\ \E p \in DOMAIN r.parts :
              LET q == r.parts[p] IN <<q[2], q[3]>> # PartOf(r.ranges, q[1])
          THEN {"part by modulo"} ELSE {})
    \cup (IF \E p \in DOMAIN r.parts :
              LET q == r.parts[p]
              IN \E e \in DOMAIN q[4] : (q[4][e][2] = 1) # Within(<<q[2], q[3]>>, q[4][e][1])
          THEN {"the segment of a part has other slots than the part"} ELSE {})
    \cup (IF r.global # <<0, NbSlots>> THEN {"global slots"} ELSE {})
KeyWrong(r) == IF KeySlot(r.b) # r.slot THEN {"slot of a key"} ELSE {}

Wrong == IF kind = "split" THEN SplitWrong(Splits[i]) ELSE KeyWrong(Keys[i])
Right == Wrong = {} \/ (PrintT("WRONG " \o ToJson([kind |-> kind, i |-> i, wrong |-> Wrong])) /\ FALSE)
=============================================================================
