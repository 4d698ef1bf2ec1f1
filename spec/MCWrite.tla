------------------------------ MODULE MCWrite ------------------------------
(* Finite instances of WriteBuf.tla *)
EXTENDS WriteBuf
W4 == <<2, 6, 1, 4>>
W6 == <<2, 9, 1, 4, 13, 5>>
WB == <<3, 17, 5, 1, 40, 4, 2, 25, 9>>
=============================================================================
