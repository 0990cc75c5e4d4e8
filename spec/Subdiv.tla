------------------------------- MODULE Subdiv --------------------------------
(* One subdivision step of a triangle mesh (or polyline), abstract in the     *)
(* numbering of the new vertices: mid maps each unordered edge to its new     *)
(* vertex.                                                                    *)
EXTENDS MeshTopo, BigRat

Canon(f) == IF Len(f) = 2 THEN f
            ELSE LET g == Rot(f) k == Rot(g) IN
                 IF f[1] <= f[2] /\ f[1] <= f[3] THEN f ELSE IF g[1] <= g[2] /\ g[1] <= g[3] THEN g ELSE k
\* the four children of a triangle, in its orientation
Children(f, mid) ==
    LET x == mid[{f[2], f[3]}]  y == mid[{f[3], f[1]}]  z == mid[{f[1], f[2]}]
    IN {<<f[1], z, y>>, <<z, f[2], x>>, <<y, x, f[3]>>, <<x, y, z>>}
RefinedSet(F, mid) == {Canon(g) : g \in UNION {Children(F[i], mid) : i \in 1..Len(F)}}
\* the two children of a segment
RefinedSegs(E, mid) == UNION {{<<E[i][1], mid[{E[i][1], E[i][2]}]>>, <<mid[{E[i][1], E[i][2]}], E[i][2]>>} : i \in 1..Len(E)}

\* ---- stencils: functions from old vertices to weights
MidStencil(S) == [v \in S |-> "1/2"]
Opp(f, S) == CHOOSE v \in {f[1], f[2], f[3]} : v \notin S
LoopEdge(F, inc, S) ==
    IF Cardinality(inc[S]) = 1 THEN MidStencil(S)
    ELSE LET opp == {<<x, Opp(F[x[1]], S)>> : x \in inc[S]}
             ov == {p[2] : p \in opp}
         IN [v \in S \cup ov |-> IF v \in S THEN "3/8" ELSE IF Cardinality(ov) = 1 THEN "1/4" ELSE "1/8"]
\* nbr: edge neighbours, bn: neighbours along boundary edges
LoopBeta(n) == IF n = 3 THEN "3/16" ELSE RDiv("3/8", n)
LoopVertex(v, nbr, bn) ==
    IF bn # {} THEN [u \in {v} \cup bn |-> IF u = v THEN "3/4" ELSE "1/8"]
    ELSE LET n == Cardinality(nbr)  b == LoopBeta(n)
         IN [u \in {v} \cup nbr |-> IF u = v THEN RSub("1", RMul(n, b)) ELSE b]
RECURSIVE SumW(_, _)
SumW(w, D) == IF D = {} THEN "0" ELSE LET v == CHOOSE v \in D : TRUE IN RAdd(w[v], SumW(w, D \ {v}))
WeightsOk(w) == REq(SumW(w, DOMAIN w), "1") /\ \A v \in DOMAIN w : RSgn(w[v]) >= 0
NbrsIn(D, v) == {CHOOSE u \in S : u # v : S \in {S \in D : v \in S}}
=============================================================================
