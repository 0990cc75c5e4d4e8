------------------------------- MODULE MC_Walks ------------------------------
(* Design models of the graph walks behind P04-P06, run on every small mesh   *)
(* and under every scheduling of their choices:                               *)
(*   loop walk      - consume boundary edges, following the head of the loop  *)
(*   label merging  - connected components as merging of labels along edges   *)
(*   corner gluing  - cutting as gluing corners across uncut edges            *)
(* The terminal states must be the declarative contracts of Tr_Surface,       *)
(* whatever order was taken.                                                  *)
EXTENDS MeshTopo
CONSTANTS N, MaxF
VARIABLES F, cut, mode, unseen, loops, cur, lab, glue
vars == <<F, cut, mode, unseen, loops, cur, lab, glue>>
Tris == {<<a, b, c>> \in (0..N-1) \X (0..N-1) \X (0..N-1) : a < b /\ a < c /\ b # c}
Code(t) == t[1] * N * N + t[2] * N + t[3]
Corners(G) == {<<i, v>> \in (1..Len(G)) \X (0..N-1) : v \in {G[i][1], G[i][2], G[i][3]}}
Idle == unseen = {} /\ loops = {} /\ cur = <<>> /\ lab = <<>> /\ glue = {}
Init == F = <<>> /\ cut = {} /\ mode = "build" /\ Idle
AddFace == /\ mode = "build" /\ Len(F) < MaxF
           /\ \E t \in Tris : (\A i \in 1..Len(F) : Code(F[i]) < Code(t)) /\ F' = Append(F, t)
           /\ UNCHANGED <<cut, mode, unseen, loops, cur, lab, glue>>
inc == IncOf(F)
Manifold == EdgeManifold(inc) /\ Oriented(F, inc) /\ VertexManifold(F)
B == BoundaryO(F, inc)
\* ---- loop walk
StartLoops == /\ mode = "build" /\ F # <<>> /\ Manifold
              /\ mode' = "loops" /\ unseen' = B /\ UNCHANGED <<F, cut, loops, cur, lab, glue>>
PickStart == /\ mode = "loops" /\ cur = <<>> /\ unseen # {}
             /\ \E e \in unseen : cur' = <<e[1], e[2]>> /\ unseen' = unseen \ {e}
             /\ UNCHANGED <<F, cut, mode, loops, lab, glue>>
Follow == /\ mode = "loops" /\ Len(cur) >= 2 /\ cur[Len(cur)] # cur[1]
          /\ \E e \in unseen : e[1] = cur[Len(cur)] /\ cur' = Append(cur, e[2]) /\ unseen' = unseen \ {e}
          /\ UNCHANGED <<F, cut, mode, loops, lab, glue>>
CloseLoop == /\ mode = "loops" /\ Len(cur) >= 2 /\ cur[Len(cur)] = cur[1]
             /\ loops' = loops \cup {SubSeq(cur, 1, Len(cur) - 1)} /\ cur' = <<>>
             /\ UNCHANGED <<F, cut, mode, unseen, lab, glue>>
\* ---- label merging
StartLabels == /\ mode = "build" /\ F # <<>> /\ mode' = "labels"
               /\ lab' = [v \in 0..N-1 |-> v] /\ UNCHANGED <<F, cut, unseen, loops, cur, glue>>
Merge == /\ mode = "labels"
         /\ \E S \in EdgeSet(F) : LET a == {lab[v] : v \in S} IN
              /\ Cardinality(a) = 2
              /\ LET lo == CHOOSE x \in a : \A y \in a : x <= y  hi == CHOOSE x \in a : x # lo
                 IN lab' = [v \in 0..N-1 |-> IF lab[v] = hi THEN lo ELSE lab[v]]
         /\ UNCHANGED <<F, cut, mode, unseen, loops, cur, glue>>
\* ---- corner gluing
StartCut == /\ mode = "build" /\ F # <<>> /\ mode' = "cut"
            /\ \E c \in SUBSET EdgeSet(F) : cut' = c
            /\ glue' = {{x} : x \in Corners(F)} /\ UNCHANGED <<F, unseen, loops, cur, lab>>
Glue == /\ mode = "cut"
        /\ \E S \in EdgeSet(F) \ cut : \E v \in S : \E x, y \in inc[S] :
             LET p == CHOOSE c \in glue : <<x[1], v>> \in c   q == CHOOSE c \in glue : <<y[1], v>> \in c
             IN p # q /\ glue' = (glue \ {p, q}) \cup {p \cup q}
        /\ UNCHANGED <<F, cut, mode, unseen, loops, cur, lab>>
Next == AddFace \/ StartLoops \/ PickStart \/ Follow \/ CloseLoop \/ StartLabels \/ Merge \/ StartCut \/ Glue
Spec == Init /\ [][Next]_vars

Pairs(c) == {<<c[k], c[(k % Len(c)) + 1]>> : k \in 1..Len(c)}
\* the walk never gets stuck, never revisits a vertex, and ends with the boundary partitioned
LoopProgress == mode = "loops" /\ Len(cur) >= 2 /\ cur[Len(cur)] # cur[1] => \E e \in unseen : e[1] = cur[Len(cur)]
LoopSimple == mode = "loops" => \A i, j \in 1..Len(cur) : (i < j /\ cur[i] = cur[j]) => (i = 1 /\ j = Len(cur))
LoopDone == (mode = "loops" /\ cur = <<>> /\ unseen = {}) =>
    /\ UNION {Pairs(c) : c \in loops} = B
    /\ \A c, d \in loops : c # d => {c[i] : i \in 1..Len(c)} \cap {d[i] : i \in 1..Len(d)} = {}
Adj(v) == UNION {S \in EdgeSet(F) : v \in S}
RECURSIVE Flood(_, _)
Flood(todo, seen) == IF todo = {} THEN seen ELSE LET nw == UNION {Adj(v) : v \in todo} \ seen IN Flood(nw, seen \cup nw)
LabelsDone == (mode = "labels" /\ ~ENABLED Merge) =>
    \A u, v \in 0..N-1 : (lab[u] = lab[v]) = (v \in Flood({u}, {u}))
RECURSIVE Fan(_, _, _)
Fan(v, todo, seen) == IF todo = {} THEN seen
    ELSE LET i == CHOOSE i \in todo : TRUE
             es == {S \in {USide(F[i], j) : j \in 1..3} : v \in S /\ S \notin cut}
             nw == UNION {{x[1] : x \in inc[S]} : S \in es} \ seen
         IN Fan(v, (todo \ {i}) \cup nw, seen \cup nw)
CutDone == (mode = "cut" /\ ~ENABLED Glue) =>
    \A c \in Corners(F) : (CHOOSE g \in glue : c \in g) = {<<i, c[2]>> : i \in Fan(c[2], {c[1]}, {c[1]})}
\* cutting a set of edges never joins what was separate: more cuts, more vertices
=============================================================================
