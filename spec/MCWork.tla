------------------------------- MODULE MCWork -------------------------------
(* Explores chains of requirement combinations: no step may yield less than   *)
(* what it combines, whichever memory the caller supplies.                    *)
EXTENDS Work
CONSTANTS MaxDim, Depth
VARIABLES acc, last, sound
vars == <<acc, last, sound>>
Reqs == {Req(m, n, FALSE, FALSE) : m, n \in 0..MaxDim} \cup {Req(m, 1, FALSE, TRUE) : m \in 0..MaxDim} \cup {Req(m, 1, TRUE, FALSE) : m \in 1..MaxDim}
Init == acc \in Reqs /\ last = 0 /\ sound = TRUE
Next == /\ last < Depth /\ last' = last + 1
        /\ \/ \E b \in Reqs : acc' = WMax(acc, b) /\ sound' = SoundMax(acc, b, acc')
           \/ \E b \in Reqs : acc' = WSum(acc, b) /\ sound' = SoundSum(acc, b, acc')
           \/ acc' = WTurn(acc) /\ sound' = SoundTurn(acc, acc')
Spec == Init /\ [][Next]_vars
Sound == sound
=============================================================================
