--------------------------- MODULE MC_SwarmScript ---------------------------
(* Every objective script: the k-th new point the real code evaluates gets    *)
(* the k-th value.  Replayed against the implementation.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls
VARIABLE q
Init == q = << >>
Next == Len(q) < Calls /\ \E f \in {"0", "1", "inf"} : q' = Append(q, f)
Spec == Init /\ [][Next]_q
Emit == Len(q) = Calls => PrintT("GEN " \o ToJson([script |-> q]))
=============================================================================
