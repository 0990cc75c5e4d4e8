----------------------------- MODULE MC_ArcsCtl -----------------------------
(* P44: how many points the spheres have during fine tuning, whatever the     *)
(* surface does (kinds) and whichever candidates turn out feasible.           *)
EXTENDS Arcs
CONSTANTS Spheres, Most, Iters, Clamped
VARIABLES cnt, it
vars == <<cnt, it>>
Kinds == {"cross", "graze", "far", "tangent"}
Init == cnt \in [1..Spheres -> 0..1] /\ (\A i \in Clamped : cnt[i] = 0) /\ it = 0
Outcomes(i) == IF i \in Clamped THEN {0} ELSE UNION {UNION {0..c : c \in Candidates(k, cnt[i], Most)} : k \in Kinds}
Pass == it < Iters /\ (\E i \in 1..Spheres : cnt[i] > 0) /\ cnt' \in {f \in [1..Spheres -> 0..Most] : \A i \in 1..Spheres : f[i] \in Outcomes(i)} /\ it' = it + 1
Done == (it = Iters \/ \A i \in 1..Spheres : cnt[i] = 0) /\ UNCHANGED vars
Next == Pass \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Pass)
NeverMore == \A i \in 1..Spheres : \A k \in Kinds : \A c \in Candidates(k, cnt[i], Most) : c <= Most
ClampedEmpty == \A i \in Clamped : cnt[i] = 0
OneMore == \A i \in 1..Spheres : \A k \in Kinds : \A c \in Candidates(k, cnt[i], Most) : c <= cnt[i] + 1
Ends == <>(it = Iters \/ \A i \in 1..Spheres : cnt[i] = 0)
=============================================================================
