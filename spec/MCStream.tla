------------------------------ MODULE MCStream ------------------------------
(* Finite instances of RespStream.tla *)
EXTENDS RespStream
F3 == <<2, 1, 3>>
F4 == <<1, 3, 2, 1>>
F6 == <<3, 1, 5, 2, 1, 4>>
FB == <<9, 1, 6>>
=============================================================================
