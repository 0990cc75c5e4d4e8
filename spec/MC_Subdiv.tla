------------------------------ MODULE MC_Subdiv ------------------------------
(* Design check: a mesh grows face by face (oriented, edge- and vertex-       *)
(* manifold meshes on N vertices) and is then subdivided; orientation,        *)
(* boundary, Euler characteristic and manifoldness survive each step and the  *)
(* Loop weights are convex.                                                   *)
EXTENDS Subdiv, Json, SequencesExt
CONSTANTS N, MaxF, MaxSub, MaxSize
VARIABLES F, k
Tris == {<<a, b, c>> \in (0..N-1) \X (0..N-1) \X (0..N-1) : a < b /\ a < c /\ b # c}
Code(t) == t[1] * N * N + t[2] * N + t[3]
\* (two faces on the same three vertices are excluded: their edges would get the same new vertices)
OkMesh(G) == LET inc == IncOf(G) IN /\ \A i, j \in 1..Len(G) : i < j => UTri(G[i]) # UTri(G[j])
                                    /\ EdgeManifold(inc) /\ Oriented(G, inc) /\ VertexManifold(G)
Gapless(G) == VertSet(G) = 0..(Cardinality(VertSet(G)) - 1)
Init == F = <<>> /\ k = 0
AddFace == /\ k = 0 /\ Len(F) < MaxF
           /\ \E t \in Tris : /\ \A i \in 1..Len(F) : Code(F[i]) < Code(t)
                              /\ F' = Append(F, t)
           /\ UNCHANGED k
EdgeSeq(inc) == SetToSeq(DOMAIN inc)
Step(G) == LET inc == IncOf(G)  es == EdgeSeq(inc)  n == Cardinality(VertSet(G))
               mid == [S \in DOMAIN inc |-> n - 1 + CHOOSE i \in 1..Len(es) : es[i] = S]
           IN SetToSeq(RefinedSet(G, mid))
Sub == /\ F # <<>> /\ k < MaxSub /\ Len(F) <= MaxSize /\ Gapless(F) /\ OkMesh(F)
       /\ F' = Step(F)
       /\ k' = k + 1
Next == AddFace \/ Sub
Spec == Init /\ [][Next]_<<F, k>>
BdryCount(G) == Cardinality(BoundaryU(IncOf(G)))
Preserved == [][Sub => /\ OkMesh(F')
                       /\ Len(F') = 4 * Len(F)
                       /\ EulerChar(F') = EulerChar(F)
                       /\ BdryCount(F') = 2 * BdryCount(F)
                       /\ Gapless(F')]_<<F, k>>
Convex == (F # <<>> /\ OkMesh(F)) =>
    LET inc == IncOf(F)  B == BoundaryU(inc) IN
    /\ \A S \in DOMAIN inc : WeightsOk(LoopEdge(F, inc, S)) /\ WeightsOk(MidStencil(S))
    /\ \A v \in VertSet(F) : LET nb == NbrsIn(DOMAIN inc, v)  bn == NbrsIn(B, v) IN
         /\ bn = {} \/ Cardinality(bn) = 2
         /\ (bn # {} \/ Cardinality(nb) >= 3) => WeightsOk(LoopVertex(v, nb, bn))
Emitted == IF F # <<>> /\ k = 0 /\ OkMesh(F) /\ Gapless(F) THEN PrintT("GEN " \o ToJson(F)) ELSE TRUE
=============================================================================
