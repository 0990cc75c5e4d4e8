------------------------------ MODULE MeshTopo ------------------------------
(* Combinatorics of indexed meshes.  A triangle list F is a sequence of       *)
(* triples of vertex indices (0-based, pairwise different inside a face); a   *)
(* tet list T a sequence of quadruples.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* side j (1..3) of a face: the oriented edge opposite to corner j
Side(f, j) == IF j = 1 THEN <<f[2], f[3]>> ELSE IF j = 2 THEN <<f[3], f[1]>> ELSE <<f[1], f[2]>>
USide(f, j) == {Side(f, j)[1], Side(f, j)[2]}
Rev(e) == <<e[2], e[1]>>
Und(e) == {e[1], e[2]}
HE(F) == (1..Len(F)) \X (1..3)                       \* half-edge names <<face, side>>
HSide(F, x) == Side(F[x[1]], x[2])

EdgeSet(F) == {USide(F[x[1]], x[2]) : x \in HE(F)}
VertSet(F) == UNION {{F[i][1], F[i][2], F[i][3]} : i \in 1..Len(F)}
\* incidence: unordered edge -> half-edges on it
IncOf(F) ==
    LET H == HE(F)
        u == TLCEval([i \in 1..Len(F) |-> [j \in 1..3 |-> USide(F[i], j)]])
        at == TLCEval([v \in VertSet(F) |-> {x \in H : v \in u[x[1]][x[2]]}])
    IN TLCEval([S \in EdgeSet(F) |-> {x \in at[CHOOSE v \in S : TRUE] : u[x[1]][x[2]] = S}])
BoundaryU(inc) == {S \in DOMAIN inc : Cardinality(inc[S]) = 1}
\* oriented boundary edges, each in the direction of its only face
BoundaryO(F, inc) == {HSide(F, CHOOSE x \in inc[S] : TRUE) : S \in BoundaryU(inc)}
EdgeManifold(inc) == \A S \in DOMAIN inc : Cardinality(inc[S]) <= 2
Oriented(F, inc) == \A S \in DOMAIN inc : Cardinality(inc[S]) = 2 =>
    LET x == CHOOSE x \in inc[S] : TRUE  y == CHOOSE y \in inc[S] : y # x
    IN HSide(F, x) = Rev(HSide(F, y))
Closed(inc) == \A S \in DOMAIN inc : Cardinality(inc[S]) = 2
EulerChar(F) == Cardinality(VertSet(F)) - Cardinality(EdgeSet(F)) + Len(F)
\* every vertex star is a single fan or cycle (connected through shared edges)
CornerAt(F, v) == {i \in 1..Len(F) : v \in {F[i][1], F[i][2], F[i][3]}}
ShareEdgeAt(F, i, k, v) == \E a \in 1..3, b \in 1..3 :
    USide(F[i], a) = USide(F[k], b) /\ v \in USide(F[i], a)
RECURSIVE Reach(_, _, _, _)
Reach(F, v, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET i == CHOOSE i \in todo : TRUE
             nw == {k \in CornerAt(F, v) \ seen : ShareEdgeAt(F, i, k, v)}
         IN Reach(F, v, (todo \ {i}) \cup nw, seen \cup nw)
VertexManifold(F) == \A v \in VertSet(F) :
    LET c == CornerAt(F, v)  s == CHOOSE i \in c : TRUE IN Reach(F, v, {s}, {s}) = c

\* ---- tetrahedra: oriented face opposite corner j, so that the four faces bound the tet
TFace(t, j) == IF j = 1 THEN <<t[2], t[3], t[4]>> ELSE IF j = 2 THEN <<t[4], t[3], t[1]>>
               ELSE IF j = 3 THEN <<t[4], t[1], t[2]>> ELSE <<t[2], t[1], t[3]>>
Rot(f) == <<f[2], f[3], f[1]>>
SameCycle(f, g) == f = g \/ Rot(f) = g \/ Rot(Rot(f)) = g
UTri(f) == {f[1], f[2], f[3]}
HF(T) == (1..Len(T)) \X (1..4)
TriSet(T) == {UTri(TFace(T[x[1]], x[2])) : x \in HF(T)}
TIncOf(T) == LET H == HF(T) IN TLCEval([S \in TriSet(T) |-> {x \in H : UTri(TFace(T[x[1]], x[2])) = S}])
=============================================================================
