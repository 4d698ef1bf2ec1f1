------------------------------- MODULE Slots -------------------------------
(* The hash slots (C15): what a partition of the slots is, which part a number *)
(* is mapped to, and CRC16 (XMODEM) as the cluster specification defines it.   *)
EXTENDS Naturals, Sequences, Bitwise

NbSlots == 16384

\* ranges: a sequence of <<start, end>> (end excluded)
Partition(ranges) ==
    /\ Len(ranges) > 0
    /\ ranges[1][1] = 0
    /\ ranges[Len(ranges)][2] = NbSlots
    /\ \A k \in 1..Len(ranges) : ranges[k][1] <= ranges[k][2]
    /\ \A k \in 1..(Len(ranges) - 1) : ranges[k][2] = ranges[k + 1][1]

\* the range of part number p of n
PartOf(ranges, p) == ranges[(p % Len(ranges)) + 1]
Within(r, x) == r[1] <= x /\ x < r[2]

RECURSIVE Shift(_, _)
Shift(crc, k) ==
    IF k = 0 THEN crc
    ELSE Shift(IF crc >= 32768 THEN ((crc * 2) % 65536) ^^ 4129 ELSE crc * 2, k - 1)
RECURSIVE CrcFrom(_, _, _)
CrcFrom(bytes, i, crc) ==
    IF i > Len(bytes) THEN crc ELSE CrcFrom(bytes, i + 1, Shift(crc ^^ (bytes[i] * 256), 8))
Crc16(bytes) == CrcFrom(bytes, 1, 0)
KeySlot(bytes) == Crc16(bytes) % NbSlots
=============================================================================
