------------------------------- MODULE MC_Topo -------------------------------
(* Design check of the mesh vocabulary: a mesh grows face by face over a      *)
(* small vertex set (every set of at most MaxF oriented triangles on N        *)
(* vertices is reached).  The invariants are the facts the trace              *)
(* specifications rely on.  Each state is also emitted as an input for the    *)
(* real code.                                                                 *)
EXTENDS MeshTopo, TLC, Json
CONSTANTS N, MaxF, Emit
VARIABLE F
\* one representative per rotation class: smallest index first
Tris == {<<a, b, c>> \in (0..N-1) \X (0..N-1) \X (0..N-1) : a < b /\ a < c /\ b # c}
Code(t) == t[1] * N * N + t[2] * N + t[3]
Init == F = <<>>
AddFace == \E t \in Tris : /\ Len(F) < MaxF
                           /\ \A i \in 1..Len(F) : Code(F[i]) < Code(t)
                           /\ F' = Append(F, t)
Next == AddFace
Spec == Init /\ [][Next]_F
inc == IncOf(F)
RECURSIVE SumCard(_)
SumCard(D) == IF D = {} THEN 0 ELSE LET S == CHOOSE S \in D : TRUE IN Cardinality(inc[S]) + SumCard(D \ {S})
\* every face has three sides on three different edges
Handshake == SumCard(DOMAIN inc) = 3 * Len(F)
\* the boundary of an oriented edge-manifold mesh is balanced at every vertex (boundary of a boundary is zero)
BoundaryBalanced == (EdgeManifold(inc) /\ Oriented(F, inc)) =>
    LET B == BoundaryO(F, inc) IN \A v \in VertSet(F) :
       Cardinality({e \in B : e[1] = v}) = Cardinality({e \in B : e[2] = v})
\* in a vertex-manifold mesh at most one boundary path passes through a vertex
OnePathPerVertex == (EdgeManifold(inc) /\ Oriented(F, inc) /\ VertexManifold(F)) =>
    LET B == BoundaryO(F, inc) IN \A v \in VertSet(F) : Cardinality({e \in B : e[1] = v}) <= 1
\* closed oriented surfaces have even Euler characteristic
ClosedEven == (F # <<>> /\ EdgeManifold(inc) /\ Closed(inc) /\ Oriented(F, inc) /\ VertexManifold(F)) => EulerChar(F) % 2 = 0
BoundaryEdgesU == {Und(e) : e \in BoundaryO(F, inc)} = BoundaryU(inc)
Emitted == IF Emit /\ F # <<>> THEN PrintT("GEN " \o ToJson(F)) ELSE TRUE
=============================================================================
