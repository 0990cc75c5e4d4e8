----------------------------- MODULE Tr_Surface -----------------------------
(* P03-P06: triangle adjacency, boundary loops, connected components, cuts.   *)
EXTENDS MeshTopo, Outcome
VARIABLES h, l, st, bad

\* ---- P03
AdjacencyJ(e) ==
    LET F == e.in.F  inc == IncOf(F)  m == Len(F) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 THEN {"triangle_triangle_adjacency: two results"}
    ELSE IF ~IsArr(e.out.a[1], "i", <<m, 3>>) \/ ~IsArr(e.out.a[2], "i", <<m, 3>>) THEN {"triangle_triangle_adjacency: shape"}
    ELSE LET TT == e.out.a[1].a  TI == e.out.a[2].a
             Partner(x) == {y \in inc[USide(F[x[1]], x[2])] : y # x /\ HSide(F, y) = Rev(HSide(F, x))}
         IN Failing({
           <<"adjacency: boundary sides have no neighbour",
              \A x \in HE(F) : Partner(x) = {} => TT[x[1]][x[2]] = -1 /\ TI[x[1]][x[2]] = -1>>,
           <<"adjacency: side is paired with the opposite half-edge",
              \A x \in HE(F) : LET P == Partner(x) IN P # {} => <<TT[x[1]][x[2]] + 1, TI[x[1]][x[2]] + 1>> \in P>>,
           <<"adjacency: links are symmetric",
              \A x \in HE(F) : LET a == TT[x[1]][x[2]]  b == TI[x[1]][x[2]] IN
                 (a >= 0 /\ a < m /\ b \in 0..2) => TT[a + 1][b + 1] = x[1] - 1 /\ TI[a + 1][b + 1] = x[2] - 1>>})

\* ---- P04
Pairs(c) == {<<c[k], c[(k % Len(c)) + 1]>> : k \in Idx(c)}
LoopsJ(e) ==
    LET F == e.in.F  inc == IncOf(F)  B == BoundaryO(F, inc) IN
    IF e.out.t # "seq" THEN {"boundary_loops: not a list"}
    ELSE IF \E k \in Idx(e.out.a) : ~IsArrK(e.out.a[k], "i", 1) THEN {"boundary_loops: loops are not integer vectors"}
    ELSE LET L == [k \in Idx(e.out.a) |-> e.out.a[k].a]
             \* vertices along a loop may not repeat, so the pairs of a loop are pairwise different
             total == {<<k, p>> : k \in Idx(L), p \in B}
         IN Failing({
           <<"boundary_loops: a loop visits a vertex twice", \A k \in Idx(L) : Injective(L[k]) /\ Len(L[k]) > 0>>,
           <<"boundary_loops: two loops share a vertex", \A j, k \in Idx(L) : j < k => Range(L[j]) \cap Range(L[k]) = {}>>,
           <<"boundary_loops: loops are exactly the boundary edges",
              {Und(p) : p \in UNION {Pairs(L[k]) : k \in Idx(L)}} = BoundaryU(inc)>>,
           <<"boundary_loops: loops follow the orientation of the boundary",
              Oriented(F, inc) => UNION {Pairs(L[k]) : k \in Idx(L)} = B>>})

\* ---- P05: classes of vertices joined by edges
Nbrs(F, inc) == LET E == DOMAIN inc IN TLCEval([v \in VertSet(F) |-> UNION {S \in E : v \in S}])
RECURSIVE Flood(_, _, _)
Flood(nb, todo, seen) == IF todo = {} THEN seen
    ELSE LET nw == UNION {nb[v] : v \in todo} \ seen IN Flood(nb, nw, seen \cup nw)
ComponentsJ(e) ==
    LET F == e.in.F  n == IF Len(F) = 0 THEN 0 ELSE 1 + SetMax(VertSet(F))
        both == e.in.faces
        C == IF both THEN IF e.out.t = "seq" /\ Len(e.out.a) = 2 THEN e.out.a[1] ELSE [t |-> "none"] ELSE e.out
    IN IF ~IsArr(C, "i", <<n>>) THEN {"connected_components: vertex labels shape"}
       ELSE IF both /\ ~IsArr(e.out.a[2], "i", <<Len(F)>>) THEN {"connected_components: face labels shape"}
       ELSE LET c == C.a  inc == IncOf(F)  nb == Nbrs(F, inc)  Vs == VertSet(F)
                lab(v) == c[v + 1]
            IN Failing({
              <<"connected_components: joined vertices share a label", \A S \in DOMAIN inc : \A u, v \in S : lab(u) = lab(v)>>,
              <<"connected_components: equal labels only if joined",
                 \A k \in Range(c) : LET cls == {i - 1 : i \in {i \in Idx(c) : c[i] = k}} IN
                    IF cls \cap Vs = {} THEN Cardinality(cls) = 1
                    ELSE LET v == CHOOSE v \in cls \cap Vs : TRUE IN Flood(nb, {v}, {v}) = cls>>,
              <<"connected_components: labels are 0..c-1", Range(c) = 0..(Cardinality(Range(c)) - 1)>>,
              <<"connected_components: face labels", both => \A i \in Idx(F) : \A j \in 1..3 : e.out.a[2].a[i] = lab(F[i][j])>>})

\* ---- P06: corners <<face, corner>> glued around a vertex across uncut edges
RECURSIVE Fan(_, _, _, _, _, _)
Fan(F, inc, cut, v, todo, seen) == IF todo = {} THEN seen
    ELSE LET i == CHOOSE i \in todo : TRUE
             es == {S \in {USide(F[i], j) : j \in 1..3} : v \in S /\ S \notin cut}
             nw == UNION {{x[1] : x \in inc[S]} : S \in es} \ seen
         IN Fan(F, inc, cut, v, (todo \ {i}) \cup nw, seen \cup nw)
CutJ(e) ==
    LET F == e.in.F  E == e.in.E  inc == IncOf(F)
        cut == {Und(E[k]) : k \in Idx(E)}
    IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 THEN {"cut_edges: two results"}
    ELSE LET G == e.out.a[1]  I == e.out.a[2] IN
    IF ~IsArr(G, "i", <<Len(F), 3>>) \/ ~IsArrK(I, "i", 1) THEN {"cut_edges: shape"}
    ELSE IF Len(E) = 0 THEN Failing({<<"cut_edges: cutting nothing changes nothing",
            G.a = F /\ I.a = [k \in 1..(1 + SetMax(VertSet(F))) |-> k - 1]>>})
    ELSE LET g == G.a  ix == I.a
             inr == \A i \in Idx(F) : \A j \in 1..3 : g[i][j] >= 0 /\ g[i][j] < Len(ix)
         IN IF ~inr THEN {"cut_edges: new index out of range"}
            ELSE LET corner(i, v) == CHOOSE j \in 1..3 : F[i][j] = v
                     at == TLCEval([v \in VertSet(F) |-> {i \in Idx(F) : v \in Range(F[i])}])
                 IN Failing({
              <<"cut_edges: new vertices map back to the original corner",
                 \A i \in Idx(F) : \A j \in 1..3 : ix[g[i][j] + 1] = F[i][j]>>,
              <<"cut_edges: indices without gaps", {g[i][j] : i \in Idx(F), j \in 1..3} = 0..(Len(ix) - 1)>>,
              <<"cut_edges: corners share a vertex iff joined across uncut edges",
                 \A v \in VertSet(F) : \A i \in at[v] :
                    {k \in at[v] : g[k][corner(k, v)] = g[i][corner(i, v)]} = Fan(F, inc, cut, v, {i}, {i})>>})

Jdg(s, e) == V(s,
    CASE e.op = "triangle_triangle_adjacency" -> AdjacencyJ(e)
      [] e.op = "boundary_loops" -> LoopsJ(e)
      [] e.op = "connected_components" -> ComponentsJ(e)
      [] e.op = "cut_edges" -> CutJ(e))
S0(hist) == 0
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
