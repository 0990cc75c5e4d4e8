---------------------------- MODULE Tr_Incidence ----------------------------
(* P01/P02: what halfedges, edges, faces, ... must return for a face list.    *)
EXTENDS MeshTopo, Outcome
VARIABLES h, l, st, bad

IsIntMat(o, w) == o.t = "arr" /\ o.k = "i" /\ Len(o.sh) = 2 /\ o.sh[2] = w

\* clauses on an edge list E returned for F, given the incidence
EdgeListBad(E, F, inc) ==
    IF ~IsIntMat(E, 2) THEN {"edges: not an (e,2) integer array"}
    ELSE LET e == E.a IN Failing({
      <<"edges: set of edges", {Und(e[k]) : k \in Idx(e)} = DOMAIN inc>>,
      <<"edges: each edge once", Len(e) = Cardinality(DOMAIN inc)>>,
      <<"edges: boundary edges oriented as their face",
         LET B == BoundaryO(F, inc) IN \A b \in B : \E k \in Idx(e) : e[k] = b>>})
\* index list ix must list, each once, exactly the rows of e whose incidence count satisfies Cls
IxBad(nm, ix, e, inc, Cls(_)) ==
    IF ~IsArrK(ix, "i", 1) THEN {nm \o ": not an integer vector"}
    ELSE Failing({ <<nm, Range(ix.a) = {k - 1 : k \in {k \in Idx(e) : Cls(Cardinality(inc[Und(e[k])]))}}>>,
                   <<nm \o ": repeated", Injective(ix.a)>> })
FaceListBad(E, T, inc) ==
    IF ~IsIntMat(E, 3) THEN {"faces: not an (f,3) integer array"}
    ELSE LET e == E.a IN Failing({
      <<"faces: set of faces", {UTri(e[k]) : k \in Idx(e)} = DOMAIN inc>>,
      <<"faces: each face once", Len(e) = Cardinality(DOMAIN inc)>>,
      <<"faces: boundary faces oriented as their tet",
         \A k \in Idx(e) : UTri(e[k]) \in DOMAIN inc /\ Cardinality(inc[UTri(e[k])]) = 1 =>
            LET x == CHOOSE x \in inc[UTri(e[k])] : TRUE IN SameCycle(e[k], TFace(T[x[1]], x[2]))>>})
IxBadT(nm, ix, e, inc, Cls(_)) ==
    IF ~IsArrK(ix, "i", 1) THEN {nm \o ": not an integer vector"}
    ELSE Failing({ <<nm, Range(ix.a) = {k - 1 : k \in {k \in Idx(e) : Cls(Cardinality(inc[UTri(e[k])]))}}>>,
                   <<nm \o ": repeated", Injective(ix.a)>> })
One(n) == n = 1
Two(n) == n >= 2
Three(n) == n > 2

\* edges with its three optional index lists; in.flags = <<b, i, nm>>
EdgesJ(e) ==
    LET F == e.in.F  inc == IncOf(F)  fl == e.in.flags
        nf == Cardinality({k \in 1..3 : fl[k]})
        pos(k) == 1 + Cardinality({q \in 1..k : fl[q]})
    IN IF nf = 0 THEN EdgeListBad(e.out, F, inc)
       ELSE IF e.out.t # "seq" \/ Len(e.out.a) # nf + 1 THEN {"edges: wrong number of results"}
       ELSE LET b0 == EdgeListBad(e.out.a[1], F, inc) IN
            IF b0 # {} THEN b0
            ELSE (IF fl[1] THEN IxBad("boundary indices", e.out.a[pos(1)], e.out.a[1].a, inc, One) ELSE {})
            \cup (IF fl[2] THEN IxBad("interior indices", e.out.a[pos(2)], e.out.a[1].a, inc, Two) ELSE {})
            \cup (IF fl[3] THEN IxBad("nonmanifold indices", e.out.a[pos(3)], e.out.a[1].a, inc, Three) ELSE {})
FacesJ(e) ==
    LET T == e.in.T  inc == TIncOf(T)  fl == e.in.flags
        nf == Cardinality({k \in 1..3 : fl[k]})
        pos(k) == 1 + Cardinality({q \in 1..k : fl[q]})
    IN IF nf = 0 THEN FaceListBad(e.out, T, inc)
       ELSE IF e.out.t # "seq" \/ Len(e.out.a) # nf + 1 THEN {"faces: wrong number of results"}
       ELSE LET b0 == FaceListBad(e.out.a[1], T, inc) IN
            IF b0 # {} THEN b0
            ELSE (IF fl[1] THEN IxBadT("boundary face indices", e.out.a[pos(1)], e.out.a[1].a, inc, One) ELSE {})
            \cup (IF fl[2] THEN IxBadT("interior face indices", e.out.a[pos(2)], e.out.a[1].a, inc, Two) ELSE {})
            \cup (IF fl[3] THEN IxBadT("nonmanifold face indices", e.out.a[pos(3)], e.out.a[1].a, inc, Three) ELSE {})

HalfedgesJ(e) == LET F == e.in.F IN
    IF ~IsArr(e.out, "i", <<Len(F), 3, 2>>) THEN {"halfedges: shape"}
    ELSE Failing({<<"halfedges: sides opposite each corner",
         \A i \in Idx(F) : \A j \in 1..3 : e.out.a[i][j] = Side(F[i], j)>>})
HalffacesJ(e) == LET T == e.in.T IN
    IF ~IsArr(e.out, "i", <<Len(T), 4, 3>>) THEN {"halffaces: shape"}
    ELSE Failing({<<"halffaces: oriented faces opposite each corner",
         \A i \in Idx(T) : \A j \in 1..4 : SameCycle(e.out.a[i][j], TFace(T[i], j))>>})

HemJ(e) ==
    LET F == e.in.F  inc == IncOf(F) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 4 THEN {"halfedge_edge_map: wrong number of results"}
    ELSE LET he == e.out.a[1]  E == e.out.a[2]  h2e == e.out.a[3]  e2h == e.out.a[4]
             b0 == EdgeListBad(E, F, inc)
             shapes == Failing({
                <<"halfedge_edge_map: he shape", IsArr(he, "i", <<Len(F), 3, 2>>)>>,
                <<"halfedge_edge_map: he_to_E shape", IsArr(h2e, "i", <<Len(F), 3>>)>>})
         IN IF b0 \cup shapes # {} THEN b0 \cup shapes
            ELSE LET ee == E.a
                     \* the half-edges listed for row k (0-based pairs), -1 fill dropped
                     listed(k) == IF e.in.manifold
                        THEN IF e2h.t = "arr" THEN SelectSeq(e2h.a[k], LAMBDA p : p # <<-1, -1>>) ELSE <<>>
                        ELSE IF e2h.t = "seq" /\ IsIntMat(e2h.a[k], 2) THEN e2h.a[k].a ELSE <<>>
                     n2 == IF e2h.t = "arr" THEN IF Len(e2h.sh) > 0 THEN e2h.sh[1] ELSE -1
                           ELSE IF e2h.t = "seq" THEN Len(e2h.a) ELSE -1
                 IN IF n2 # Len(ee) THEN {"halfedge_edge_map: E_to_he length"}
                    ELSE IF e.in.manifold /\ ~IsArr(e2h, "i", <<Len(ee), 2, 2>>) THEN {"halfedge_edge_map: E_to_he shape"}
                    ELSE Failing({
                      <<"halfedge_edge_map: he", \A x \in HE(F) : he.a[x[1]][x[2]] = HSide(F, x)>>,
                      <<"halfedge_edge_map: he_to_E maps each half-edge to its edge",
                         \A x \in HE(F) : LET k == h2e.a[x[1]][x[2]] IN
                            k >= 0 /\ k < Len(ee) /\ Und(ee[k + 1]) = USide(F[x[1]], x[2])>>,
                      <<"halfedge_edge_map: E_to_he lists exactly the half-edges of each edge",
                         \A k \in Idx(ee) :
                            /\ Injective(listed(k))
                            /\ {<<p[1] + 1, p[2] + 1>> : p \in Range(listed(k))} = inc[Und(ee[k])]>>})

AdjJ(e) ==
    LET X == e.in.X
        pairs == IF Len(X[1]) = 2 THEN {Und(X[k]) : k \in Idx(X)} ELSE EdgeSet(X)
        n == 1 + SetMax(UNION pairs)
    IN IF ~IsSp(e.out, <<n, n>>) THEN {"adjacency_matrix: shape"}
       ELSE Failing({
         <<"adjacency_matrix: entries are exactly 1 at both orders of each edge",
           LET T == {e.out.e[k] : k \in Idx(e.out.e)} IN
             T = UNION {LET a == SetMin(p) b == SetMax(p) IN {<<a, b, "1">>, <<b, a, "1">>} : p \in pairs}>>})

EdgeIndicesJ(e) ==
    LET n == e.in.n  m == IF e.in.closed THEN n ELSE n - 1 IN
    IF ~IsArr(e.out, "i", <<m, 2>>) THEN {"edge_indices: shape"}
    ELSE Failing({<<"edge_indices: consecutive vertices", \A k \in 1..m : e.out.a[k] = <<k - 1, k % n>> >>})

\* ---- P02
BoundaryEdgesJ(e) == LET F == e.in.F inc == IncOf(F) IN
    IF ~IsIntMat(e.out, 2) THEN {"boundary_edges: shape"}
    ELSE Failing({<<"boundary_edges: exactly the edges with one face, oriented", Range(e.out.a) = BoundaryO(F, inc)>>,
                  <<"boundary_edges: repeated", Injective(e.out.a)>>})
BoundaryVerticesJ(e) == LET F == e.in.F inc == IncOf(F) IN
    IF ~IsArrK(e.out, "i", 1) THEN {"boundary_vertices: shape"}
    ELSE Failing({<<"boundary_vertices: exactly the ends of boundary edges", Range(e.out.a) = UNION BoundaryU(inc)>>,
                  <<"boundary_vertices: repeated", Injective(e.out.a)>>})
BoundaryFacesJ(e) == LET T == e.in.T inc == TIncOf(T) IN
    IF ~IsIntMat(e.out, 3) THEN {"boundary_faces: shape"}
    ELSE Failing({
       <<"boundary_faces: exactly the faces with one tet", {UTri(f) : f \in Range(e.out.a)} = {S \in DOMAIN inc : Cardinality(inc[S]) = 1}>>,
       <<"boundary_faces: repeated", Len(e.out.a) = Cardinality({UTri(f) : f \in Range(e.out.a)})>>,
       <<"boundary_faces: orientation", \A f \in Range(e.out.a) : UTri(f) \in DOMAIN inc =>
            \E x \in inc[UTri(f)] : SameCycle(f, TFace(T[x[1]], x[2]))>>})
Lex(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
NonManifoldJ(e) == LET F == e.in.F inc == IncOf(F) IN
    IF ~IsIntMat(e.out, 2) THEN {"non_manifold_edges: shape"}
    ELSE Failing({
       <<"non_manifold_edges: exactly the edges with more than two faces",
          {Und(p) : p \in Range(e.out.a)} = {S \in DOMAIN inc : Cardinality(inc[S]) > 2}>>,
       <<"non_manifold_edges: columns sorted", \A p \in Range(e.out.a) : p[1] < p[2]>>,
       <<"non_manifold_edges: rows sorted, unique", \A k \in 1..(Len(e.out.a) - 1) : Lex(e.out.a[k], e.out.a[k + 1])>>})

\* tables produced from the same face list must agree; stateless calls
Jdg(s, e) == V(s,
    CASE e.op = "halfedges" -> HalfedgesJ(e)
      [] e.op = "halffaces" -> HalffacesJ(e)
      [] e.op = "edges" -> EdgesJ(e)
      [] e.op = "faces" -> FacesJ(e)
      [] e.op = "halfedge_edge_map" -> HemJ(e)
      [] e.op = "adjacency_matrix" -> AdjJ(e)
      [] e.op = "edge_indices" -> EdgeIndicesJ(e)
      [] e.op = "boundary_edges" -> BoundaryEdgesJ(e)
      [] e.op = "boundary_vertices" -> BoundaryVerticesJ(e)
      [] e.op = "boundary_faces" -> BoundaryFacesJ(e)
      [] e.op = "non_manifold_edges" -> NonManifoldJ(e))
S0(hist) == 0
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
