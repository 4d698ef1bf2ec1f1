--------------------------- MODULE ContractTrace ---------------------------
(* Validates a batch of histories recorded from the real server against the   *)
(* contract.  Each initial state is one history; each transition consumes one *)
(* event; a history is accepted when it is consumed to its end.               *)
EXTENDS Contract, Json, IOUtils

Input == JsonDeserialize(IOEnv.HISTORIES)
Histories == Input.histories
\* clauses that are no part of the property that is decided
Skip == {Input.skip[k] : k \in 1..Len(Input.skip)}

VARIABLES i, l, s
vars == <<i, l, s>>

Events(k) == Histories[k].ev

Init == /\ i \in 1..Len(Histories)
        /\ l = 1
        /\ s = [Start(Histories[i].limit, Histories[i].laddr) EXCEPT !.skip = Skip]

Consume == /\ s.bad = {}
           /\ l <= Len(Events(i))
           /\ s' = Step(s, Events(i)[l])
           /\ l' = l + 1
           /\ i' = i

Done == /\ s.bad = {}
        /\ l = Len(Events(i)) + 1
        /\ PrintT(<<"ACCEPTED", i>>)
        /\ l' = l + 1
        /\ UNCHANGED <<i, s>>

\* says where, without a counterexample (it would be as long as the history)
Refuse == /\ s.bad # {}
          /\ l <= Len(Events(i)) + 1
          /\ PrintT(<<"REFUSED", i, l, s.bad>>)
          /\ l' = Len(Events(i)) + 2
          /\ UNCHANGED <<i, s>>

Next == Consume \/ Done \/ Refuse
Spec == Init /\ [][Next]_vars

Conforms == s.bad = {}
\* the contract is deterministic: how far the history is consumed says it all
View == <<i, l, s.bad>>
=============================================================================
