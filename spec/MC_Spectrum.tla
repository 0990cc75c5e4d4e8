----------------------------- MODULE MC_Spectrum -----------------------------
(* Every order in which the modes of small boxes can be listed: the listed    *)
(* modes are the lowest ones, whatever the ties, only candidates with         *)
(* prod(N_d + 1) <= number of modes ever occur, and each mode is an eigen-    *)
(* vector of the discrete Neumann Laplacian on the nodes (reflecting walls).  *)
EXTENDS Spectrum, FiniteSets, TLC, Json
CONSTANTS Count
VARIABLES l, done, front, last
Boxes == { <<"1", "1">>, <<"1", "2">>, <<"3", "1">>, <<"5/4", "1">>, <<"1", "1", "1">>, <<"2", "1", "1">>, <<"1/2", "2", "1">>, <<"1", "5", "3">> }
Init == l \in Boxes /\ done = {} /\ front = {Origin(Len(l))} /\ last = << >>
Next == /\ Cardinality(done) < Count
        /\ \E N \in Least(front, l, "0") :
             /\ done' = done \union {N} /\ last' = N
             /\ front' = (front \ {N}) \union Opened(N, done \union {N})
        /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, done, front, last>>
All == [1..Len(l) -> 0..Count]
Nearby == {N \in All : \A d \in 1..Len(l) : N[d] <= 4}
Sorted == last # << >> => \A N \in done : RLe(Weight(N, l), Weight(last, l))
Lowest == last # << >> => \A N \in Nearby \ done : RLe(Weight(last, l), Weight(N, l))
Closed == \A N \in done : Below(N) \subseteq done
Plus(N) == [d \in 1..Len(N) |-> N[d] + 1]
Few == \A N \in done : Prod(Plus(N)) <= Cardinality(done)
Frontier == \A N \in Nearby : (N \notin done /\ Below(N) \subseteq done) => N \in front
\* the factor of one axis under the discrete Laplacian with reflecting walls: eigenvalue 2 - 2 cos(n pi/(g-1))
At(n, i, g) == LET j == IF i < 0 THEN -i ELSE IF i > g - 1 THEN 2 * (g - 1) - i ELSE i IN Factor(n, j, g)
Eigen == last = << >> => \A g \in 2..5, n \in 0..(4) : \A i \in 0..(g-1) :
    RNear(RSub(RMul("2", At(n, i, g)), RAdd(At(n, i-1, g), At(n, i+1, g))), RMul(RSub("2", RMul("2", At(n, 1, g))), At(n, i, g)), "1/1000000000000", "0")
Emit == Cardinality(done) = Count => PrintT("GEN " \o ToJson([l |-> l]))
=============================================================================
