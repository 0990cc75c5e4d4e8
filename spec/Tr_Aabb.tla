------------------------------ MODULE Tr_Aabb --------------------------------
(* P15: recorded bounding-volume trees and traversals.                        *)
EXTENDS Aabb, GeoMesh, Outcome
VARIABLES h, l, st, bad
Rel == "1/1000000000000"
Ids1(o) == IF Len(o.sh) = 2 THEN [i \in 1..o.sh[1] |-> o.a[i][1]] ELSE o.a    \* (n,) or (n,1)
IsVec(o, n) == o.t = "arr" /\ o.k = "i" /\ (o.sh = <<n>> \/ o.sh = <<n, 1>>)
ShapeOk(o, d) == /\ o.t = "seq" /\ Len(o.a) = 7 /\ IsArrK(o.a[1], "f", 2) /\ o.a[1].sh[2] = d
                 /\ LET n == o.a[1].sh[1] IN /\ IsArr(o.a[2], "f", <<n, d>>) /\ IsArr(o.a[3], "i", <<n, 2>>)
                       /\ IsVec(o.a[4], n) /\ IsVec(o.a[5], n) /\ IsVec(o.a[6], n) /\ IsVec(o.a[7], n)
BuildJ(s, e) ==
    LET X == e.in.X  F == e.in.F  d == Len(X[1])  o == e.out IN
    IF ~ShapeOk(o, d) THEN [bad |-> {"aabb: shape of the result"}, st |-> s, stop |-> TRUE]
    ELSE LET C == o.a[1].a  W == o.a[2].a  CH == o.a[3].a  PAR == Ids1(o.a[4])  D == Ids1(o.a[5])  T == Ids1(o.a[6])  S == Ids1(o.a[7])
             n == Len(C)  N == 0..(n-1)
         IN IF ~TreeOk(CH) THEN [bad |-> {"aabb: not a binary tree"}, st |-> s, stop |-> TRUE]
            ELSE LET M == TLCEval([q \in 1..n |-> MaxAbs1(C[q])])
                     sc == RMul(Rel, MaxAbs2(X))
                     lo(V0, k) == LET RECURSIVE m(_) m(Z) == LET z == CHOOSE z \in Z : TRUE IN IF Z = {z} THEN Pt(X, z)[k] ELSE RMin(Pt(X, z)[k], m(Z \ {z})) IN m(V0)
                     hi(V0, k) == LET RECURSIVE m(_) m(Z) == LET z == CHOOSE z \in Z : TRUE IN IF Z = {z} THEN Pt(X, z)[k] ELSE RMax(Pt(X, z)[k], m(Z \ {z})) IN m(V0)
                     elems == LET RECURSIVE el(_) el(q) == IF Leaf(CH, q) THEN {T[q + 1]} ELSE UNION {el(k) : k \in KidsOf(CH, q)} IN TLCEval([q \in N |-> el(q)])
                     verts(q) == IF q = 0 THEN 0..(Len(X) - 1) ELSE UNION {Range(F[x + 1]) : x \in elems[q]}
                     ownv(q) == UNION {Range(F[x + 1]) : x \in elems[q]}
                     nl == Cardinality({q \in N : Leaf(CH, q)})
                     good == \A q \in N : Leaf(CH, q) => T[q + 1] \in 0..(Len(F) - 1)
                 IN IF ~good THEN [bad |-> {"aabb: a leaf holds no element"}, st |-> s, stop |-> TRUE]
                    ELSE Stop([s EXCEPT !.CH = CH], Failing({
                     <<"aabb: some element is not in exactly one leaf", nl = Len(F) /\ elems[0] = 0..(Len(F) - 1)>>,
                     <<"aabb: an inner node holds an element", \A q \in N : ~Leaf(CH, q) => T[q + 1] = -1>>,
                     <<"aabb: parent records", PAR[1] = -1 /\ \A q \in N : \A k \in KidsOf(CH, q) : PAR[k + 1] = q>>,
                     <<"aabb: depths", D[1] = 1 /\ \A q \in N : \A k \in KidsOf(CH, q) : D[k + 1] = D[q + 1] + 1>>,
                     <<"aabb: box is not the bounding box of its elements", \A q \in N : \A k \in 1..d :
                         LET V0 == verts(q)  a == lo(V0, k)  b == hi(V0, k)
                         IN RNear(C[q + 1][k], RDiv(RAdd(a, b), "2"), sc, "0") /\ RNear(W[q + 1][k], RSub(b, a), sc, "0")>>,
                     <<"aabb: split direction", \A q \in N : IF Leaf(CH, q) THEN S[q + 1] = -1
                         ELSE S[q + 1] \in 0..(d-1) /\ LET V0 == ownv(q)  e1 == [k \in 1..d |-> RSub(hi(V0, k), lo(V0, k))]
                                                       IN \A k \in 1..d : RLe(e1[k], RAdd(e1[S[q + 1] + 1], sc))>>,
                     <<"aabb: argument modified", e.in.same>>}))
\* visits: in.allow (nodes accepted), in.disc, out: sequence of <<node, is_leaf>> pairs as recorded
WalkJ(s, e) ==
    LET CH == e.in.ch  al == Range(e.in.allow)  v == e.in.visits  ns == [i \in Idx(v) |-> v[i][1]] IN
    Failing({
      <<"traverse: root not first", Len(ns) > 0 /\ ns[1] = 0>>,
      <<"traverse: a node is visited twice", Injective(ns)>>,
      <<"traverse: visited nodes are not those reachable through accepted nodes", Range(ns) = Reach(CH, al, 0)>>,
      <<"traverse: visiting order does not follow the queue discipline", ns = Order(e.in.disc, <<0>>, CH, al)>>,
      <<"traverse: wrong leaf flag", \A i \in Idx(v) : ns[i] \in 0..(Len(CH)-1) => (v[i][2] = 1) = Leaf(CH, ns[i])>>,
      <<"traverse: tree arrays not passed to the predicate unchanged", e.in.same>>,
      <<"traverse: does not report success", e.out.t = "bool" /\ e.out.v>>})
Jdg(s, e) == CASE e.op = "build" -> BuildJ(s, e) [] e.op = "walk" -> V(s, WalkJ(s, e))
S0(hist) == [CH |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
