------------------------------- MODULE Tr_Dist -------------------------------
(* P16, P17: recorded distance queries agree with the exact distances.        *)
EXTENDS DistGeo, Outcome
VARIABLES h, l, st, bad
Tol == "1/100000000000"          \* of squared lengths, relative to the configuration's squared size
LTol == "1/1000000000"
Pick(X, f) == [j \in Idx(f) |-> X[f[j] + 1]]
MaxD2(p, X) == LET f[i \in 0..Len(X)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], D2(p, X[i])) IN f[Len(X)]
MinSeq(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMin(f[i-1], s[i]) IN f[Len(s)]
MaxSeq(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMax(f[i-1], s[i]) IN f[Len(s)]
Near2(a, b, sc) == RIsNum(a) /\ RNear(a, b, RMul(Tol, sc), "0")
SqNear(d, w2, sc) == RIsNum(d) /\ RLe("0", d) /\ Near2(RMul(d, d), w2, sc)
NumOf(o) == IF o.t = "int" THEN RNum(o.v) ELSE IF o.t = "num" THEN o.v ELSE IF o.t = "arr" /\ o.sh \in {<<1>>} THEN RNum(o.a[1]) ELSE "nan"
LamOf(o) == IF o.t = "arr" THEN (IF Len(o.sh) = 2 /\ o.sh[1] = 1 THEN o.a[1] ELSE o.a) ELSE IF o.t = "seq" THEN [i \in Idx(o.a) |-> NumOf(o.a[i])] ELSE <<NumOf(o)>>
LamOk(lam, p, el, d2, sc) ==
    /\ Len(lam) = Len(el) /\ \A j \in Idx(lam) : RIsNum(lam[j]) /\ RLe(RNeg(LTol), lam[j])
    /\ RNear(RSum(lam), "1", LTol, "0")
    /\ RNear(D2(p, Comb(lam, el)), d2, RMul("1/100000000", sc), "0")
SetupJ(e) ==
    LET X == e.in.X  F == e.in.F  P == e.in.P
    IN Ok([X |-> X, F |-> F, P |-> P,
           sc |-> TLCEval([q \in Idx(P) |-> MaxD2(P[q], X)]),
           d |-> TLCEval([q \in Idx(P) |-> [i \in Idx(F) |-> ElemD2(P[q], Pick(X, F[i]))]])])
QueryJ(s, e) ==
    LET np == Len(s.P)  w == Len(s.F[1])  o == e.out  nm == e.in.what \o ": " IN
    IF o.t # "seq" \/ Len(o.a) # 3 \/ ~IsArr(o.a[1], "f", <<np>>) \/ ~IsArr(o.a[2], "i", <<np>>) \/ ~IsArr(o.a[3], "f", <<np, w>>) THEN {nm \o "shape of the result"}
    ELSE LET i(q) == o.a[2].a[q] + 1  okI(q) == i(q) \in Idx(s.F)
             val(q) == IF e.in.sqrt THEN RMul(o.a[1].a[q], o.a[1].a[q]) ELSE o.a[1].a[q]
         IN Failing({
           <<nm \o "not the closest distance", \A q \in 1..np : Near2(val(q), MinSeq(s.d[q]), s.sc[q]) /\ (e.in.sqrt => RLe("0", o.a[1].a[q]))>>,
           <<nm \o "element does not attain the distance", \A q \in 1..np : okI(q) /\ Near2(s.d[q][i(q)], MinSeq(s.d[q]), s.sc[q])>>,
           <<nm \o "not barycentric coordinates of a closest point", \A q \in 1..np : okI(q) => LamOk(o.a[3].a[q], s.P[q], Pick(s.X, s.F[i(q)]), MinSeq(s.d[q]), s.sc[q])>>,
           <<nm \o "argument modified", e.in.same>>})
\* a tree kept for later: its answers are distances, elements and closest points
TreeJ(s, e) ==
    LET np == Len(s.P)  o == e.out  nm == "squared_distance_precompute: " IN
    IF o.t # "seq" \/ Len(o.a) # 3 \/ ~IsArr(o.a[1], "f", <<np>>) \/ ~IsArr(o.a[2], "i", <<np>>) \/ ~IsArr(o.a[3], "f", <<np, Len(s.X[1])>>) THEN {nm \o "shape of the result"}
    ELSE LET i(q) == o.a[2].a[q] + 1 IN Failing({
       <<nm \o "the stored mesh differs", e.in.V = s.X /\ e.in.F = s.F /\ e.in.dim = Len(s.X[1])>>,
       <<nm \o "not the closest distance", \A q \in 1..np : Near2(o.a[1].a[q], MinSeq(s.d[q]), s.sc[q])>>,
       <<nm \o "element does not attain the distance", \A q \in 1..np : i(q) \in Idx(s.F) /\ Near2(s.d[q][i(q)], MinSeq(s.d[q]), s.sc[q])>>,
       <<nm \o "not a closest point", \A q \in 1..np : i(q) \in Idx(s.F) => /\ RLe(ElemD2(o.a[3].a[q], Pick(s.X, s.F[i(q)])), RMul(Tol, s.sc[q]))
                                                                        /\ Near2(D2(o.a[3].a[q], s.P[q]), MinSeq(s.d[q]), s.sc[q])>>})
ElemJ(s, e) ==
    LET q == e.in.q + 1  f == e.in.i + 1  el == Pick(s.X, s.F[f])  w == s.d[q][f] IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 THEN {"squared_distance_to_element: shape of the result"}
    ELSE Failing({
       <<"squared_distance_to_element: wrong distance", Near2(NumOf(e.out.a[1]), w, MaxD2(s.P[q], el))>>,
       <<"squared_distance_to_element: not barycentric coordinates of the closest point", LamOk(LamOf(e.out.a[2]), s.P[q], el, w, MaxD2(s.P[q], el))>>})
BaryJ(e) ==
    LET n == Len(e.in.p) IN
    IF ~IsArr(e.out, "f", <<n, 3>>) THEN {"barycentric_coordinates: shape"}
    ELSE Failing({
       <<"barycentric_coordinates: do not sum to one", \A i \in 1..n : RNear(RSum(e.out.a[i]), "1", LTol, "0")>>,
       <<"barycentric_coordinates: do not reproduce the point", \A i \in 1..n :
           LET a == e.in.a[i]  b == e.in.b[i]  c == e.in.c[i]  r == RVSub(e.in.p[i], Comb(e.out.a[i], <<a, b, c>>))
               sc == MaxD2(e.in.p[i], <<a, b, c>>)
           IN (\A j \in 1..3 : RIsNum(e.out.a[i][j])) /\
              IF Len(a) = 2 THEN RLe(RDot(r, r), RMul(Tol, sc))
              ELSE RNear(RDot(r, RVSub(b, a)), "0", RMul(LTol, sc), "0") /\ RNear(RDot(r, RVSub(c, a)), "0", RMul(LTol, sc), "0")>>})
EdgeJ(e) ==
    LET a == e.in.a  b == e.in.b  c == e.in.c  d == e.in.d  o == e.out
        w == LET P == SegSeg(a, b, c, d) IN D2(P[1], P[2])
        sc == RMax(MaxD2(a, <<b, c, d>>), MaxD2(c, <<b, d>>))
    IN IF o.t # "seq" \/ Len(o.a) # 3 \/ ~IsArr(o.a[2], "f", <<Len(a)>>) \/ ~IsArr(o.a[3], "f", <<Len(a)>>) THEN {"edge_edge_distance: shape"}
       ELSE LET x == o.a[2].a  y == o.a[3].a IN Failing({
         <<"edge_edge_distance: wrong distance", SqNear(NumOf(o.a[1]), w, sc)>>,
         <<"edge_edge_distance: first point not on the first edge", RLe(ElemD2(x, <<a, b>>), RMul(Tol, sc))>>,
         <<"edge_edge_distance: second point not on the second edge", RLe(ElemD2(y, <<c, d>>), RMul(Tol, sc))>>,
         <<"edge_edge_distance: points do not attain the distance", Near2(D2(x, y), w, sc)>>})
TriJ(e) == LET S == e.in.S  T == e.in.T  w == TriTriD2(S, T)
               sc == MaxSeq([k \in 1..3 |-> MaxD2(S[k], T \o S)])
           IN IF ~IsNum(e.out) THEN {"triangle_triangle_distance: not a number"}
              ELSE Failing({<<"triangle_triangle_distance: wrong distance", SqNear(NumOf(e.out), w, sc)>>,
                            <<"triangle_triangle_distance: positive distance of touching triangles", RSgn(w) = 0 /\ e.in.lattice => RLe(RMul(NumOf(e.out), NumOf(e.out)), RMul("1/1000000000000000000000000", sc))>>})
MinDJ(e) ==
    LET w == MinSeq([k \in 1..(Len(e.in.F1) * Len(e.in.F2)) |-> LET i == ((k - 1) \div Len(e.in.F2)) + 1  j == ((k - 1) % Len(e.in.F2)) + 1
                     IN TriTriD2(Pick(e.in.X1, e.in.F1[i]), Pick(e.in.X2, e.in.F2[j]))])
        sc == MaxSeq([k \in Idx(e.in.X1) |-> MaxD2(e.in.X1[k], e.in.X2)])
    IN IF ~IsNum(e.out) THEN {"minimum_distance: not a number"}
       ELSE Failing({<<"minimum_distance: not the minimum over all pairs", SqNear(NumOf(e.out), w, sc)>>})
HausJ(e) ==
    LET One(X, Y, G) == MaxSeq([k \in Idx(X) |-> MinSeq([j \in Idx(G) |-> ElemD2(X[k], Pick(Y, G[j]))])])
        w == RMax(One(e.in.X1, e.in.X2, e.in.F2), One(e.in.X2, e.in.X1, e.in.F1))
        sc == MaxSeq([k \in Idx(e.in.X1) |-> MaxD2(e.in.X1[k], e.in.X2)])
        v == NumOf(e.out)
    IN Failing({<<"approximate_hausdorff_distance: wrong distance", SqNear(v, w, sc)>>})
Jdg(s, e) ==
    CASE e.op = "setup" -> SetupJ(e)
      [] e.op = "query" -> V(s, QueryJ(s, e))
      [] e.op = "tree" -> V(s, TreeJ(s, e))
      [] e.op = "element" -> V(s, ElemJ(s, e))
      [] e.op = "bary" -> V(s, BaryJ(e))
      [] e.op = "edge" -> V(s, EdgeJ(e))
      [] e.op = "tritri" -> V(s, TriJ(e))
      [] e.op = "mindist" -> V(s, MinDJ(e))
      [] e.op = "hausdorff" -> V(s, HausJ(e))
S0(hist) == [X |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
