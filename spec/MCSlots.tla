------------------------------ MODULE MCSlots ------------------------------
(* Finite instances of SlotsDesign.tla *)
EXTENDS SlotsDesign
Few == 1..5
UpTo250 == 1..250
UpTo1500 == 1..1500
Largest == {4095, 4096, 4097, 8191, 8192, 16383, 16384}
=============================================================================
