------------------------------ MODULE MC_Keep -------------------------------
(* P43: the vertices of a mesh are put into a new order one by one, those to  *)
(* keep first (as given), then the boundary, then the others, in any order    *)
(* inside the last two groups.  Whatever the order, faces named by the new    *)
(* numbers are the old faces, and what is kept has the first numbers.         *)
EXTENDS Wrap, MeshTopo, Json
CONSTANTS Pick
VARIABLES F, keep, order
vars == <<F, keep, order>>
Meshes == { <<<<0,1,2>>, <<0,2,3>>, <<0,3,4>>, <<0,4,1>>>>,                     \* a disk with one inner vertex
            <<<<0,1,2>>, <<0,2,3>>, <<0,3,1>>, <<1,3,2>>>>,                     \* a closed surface
            <<<<1,0,2>>, <<3,2,0>>>> }
Vs == VertSet(F)
Bd == UNION BoundaryU(IncOf(F))
Init == F \in Meshes /\ keep \in UNION {[1..k -> VertSet(F)] : k \in 0..3} /\ order = << >>
Kept == Once(keep)
Want == IF Len(order) < Len(Kept) THEN {Kept[Len(order) + 1]}
        ELSE IF ~(Bd \subseteq Elems(order)) THEN Bd \ Elems(order) ELSE Vs \ Elems(order)
Next == Want # {} /\ (\E v \in Want : order' = Append(order, v)) /\ UNCHANGED <<F, keep>>
Spec == Init /\ [][Next]_vars
Done == Elems(order) = Vs
New(v) == CHOOSE i \in 1..Len(order) : order[i] = v
NoRepeat == Cardinality(Elems(order)) = Len(order)
KeptFirst == Done => \A i \in 1..Len(Kept) : order[i] = Kept[i]
Block == Done => {New(v) : v \in Elems(keep) \cup Bd} = 1..Cardinality(Elems(keep) \cup Bd)
SameFaces == Done => \A f \in 1..Len(F) : [j \in 1..3 |-> order[New(F[f][j])]] = F[f]
SumOf(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE 3 * f[i-1] + s[i] IN f[Len(s)]
Emit == (order = << >> /\ (Len(keep) + SumOf(keep)) % Pick = 0) => PrintT("GEN " \o ToJson([F |-> F, keep |-> keep]))
=============================================================================
