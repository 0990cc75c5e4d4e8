------------------------------ MODULE MC_DistGeo -----------------------------
(* The closest-point operators satisfy the optimality certificate on lattice  *)
(* configurations: all moves of corner points on a small lattice, starting    *)
(* from a fixed pair of elements.                                             *)
EXTENDS DistGeo, Json
CONSTANTS Mode, Walk
VARIABLES A, B, n
L == {"0", "1", "3"}
P3 == L \X L \X {"0", "2"}
Pts == {<<p[1], p[2], p[3]>> : p \in P3}
T0 == <<<<"0","0","0">>, <<"3","0","0">>, <<"1","3","2">>>>
T1 == <<<<"1","1","0">>, <<"1","1","2">>, <<"3","3","2">>>>
Cut(t, k) == SubSeq(t, 1, k)
Sizes == CASE Mode = "point" -> {<<1, 1>>, <<1, 2>>, <<1, 3>>} [] Mode = "edge" -> {<<2, 2>>} [] Mode = "tri" -> {<<3, 3>>}
Init == \E z \in Sizes : A = Cut(T1, z[1]) /\ B = Cut(T0, z[2]) /\ n = 0
Next == /\ n < Walk /\ n' = n + 1
        /\ \/ \E i \in 1..Len(A) : \E p \in Pts : A' = [A EXCEPT ![i] = p] /\ UNCHANGED B
           \/ \E i \in 1..Len(B) : \E p \in Pts : B' = [B EXCEPT ![i] = p] /\ UNCHANGED A
Spec == Init /\ [][Next]_<<A, B, n>>
Pair == CASE Len(A) = 1 -> PtTo(A[1], B) [] Len(A) = 2 -> SegSeg(A[1], A[2], B[1], B[2]) [] Len(A) = 3 -> TriTri(A, B)
Optimal == LET P == Pair IN Closest(P[1], P[2], A, B)
InHull == Len(A) = 1 => LET lam == ElemLam(A[1], B) IN (\A i \in 1..Len(lam) : RSgn(lam[i]) >= 0) /\ REq(RSum(lam), "1")
\* proper triangles only: collinear ones are compared as their edges
Deg(t) == RSgn(RDist2(RCross(RVSub(t[2], t[1]), RVSub(t[3], t[1])), <<"0","0","0">>)) = 0
Emit == (Mode = "tri" /\ n = Walk /\ ~Deg(A) /\ ~Deg(B)) => PrintT("GEN " \o ToJson(<<A, B>>))
=============================================================================
