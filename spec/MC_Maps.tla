------------------------------- MODULE MC_Maps -------------------------------
(* Design model for P07: vertices are scanned one by one; a vertex is kept or *)
(* merged into a representative (dedup), and face lists are compacted         *)
(* (unreferenced).  All scan orders give maps with the stated identities.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, K, Emit        \* N vertices, positions 1..K
VARIABLES pos, todo, rep
vars == <<pos, todo, rep>>
Init == pos \in [1..N -> 1..K] /\ todo = 1..N /\ rep = [v \in 1..N |-> 0]
Scan == \E v \in todo :
    /\ todo' = todo \ {v}
    /\ rep' = [rep EXCEPT ![v] = IF \E u \in 1..N : rep[u] = u /\ pos[u] = pos[v]
                                 THEN CHOOSE u \in 1..N : rep[u] = u /\ pos[u] = pos[v] ELSE v]
    /\ UNCHANGED pos
Spec == Init /\ [][Scan]_vars
Kept == {v \in 1..N : rep[v] = v}
SamePlace == \A v \in 1..N : rep[v] # 0 => pos[rep[v]] = pos[v]
OneEach == \A u, v \in Kept : u # v => pos[u] # pos[v]
Idempotent == \A v \in 1..N : rep[v] # 0 => rep[rep[v]] = rep[v]
Complete == todo = {} => Cardinality(Kept) = Cardinality({pos[v] : v \in 1..N})
Emitted == IF Emit /\ todo = 1..N THEN PrintT("GEN " \o ToJson(pos)) ELSE TRUE
=============================================================================
