---------------------------- MODULE SlotsDesign ----------------------------
(* How the slots are split: parts of the same size, the remainder in the last. *)
EXTENDS Slots
CONSTANTS Ns, Bug
VARIABLES n, ranges
vars == <<n, ranges>>

Size == NbSlots \div n
Rest == NbSlots % n
Init == n \in Ns /\ ranges = <<>>
Split ==
    /\ Len(ranges) < n
    /\ LET k == Len(ranges)
           start == k * Size
           last == k = n - 1
           end == (k + 1) * Size + (IF last /\ Bug # "drop-rest" THEN Rest ELSE 0)
       IN ranges' = Append(ranges, <<start, IF Bug = "inclusive" THEN end - 1 ELSE end>>)
    /\ UNCHANGED n
Next == Split
Spec == Init /\ [][Next]_vars

\* only the two last ranges change: what is before has been judged
Contiguous == Len(ranges) > 1 => ranges[Len(ranges)][1] = ranges[Len(ranges) - 1][2]
Starts == ranges # <<>> => ranges[1][1] = 0
\* ranges are 16 bit numbers
Fits == ranges # <<>> => ranges[Len(ranges)][2] <= 65535 /\ ranges[Len(ranges)][1] < ranges[Len(ranges)][2]
Covers == Len(ranges) = n => Partition(ranges)
View == <<n, Len(ranges), IF ranges = <<>> THEN 0 ELSE ranges[Len(ranges)]>>
=============================================================================
