------------------------------ MODULE Tr_Winding -----------------------------
(* P19: winding numbers and signed distances of oriented polylines.           *)
EXTENDS Winding, DistGeo, Outcome
VARIABLES h, l, st, bad
Tol == "1/100000000000"
LTol == "1/1000000000"
Pick(X, f) == [j \in Idx(f) |-> X[f[j] + 1]]
MaxD2(p, X) == LET f[i \in 0..Len(X)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], D2(p, X[i])) IN f[Len(X)]
MinSeq(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMin(f[i-1], s[i]) IN f[Len(s)]
Closed3(F) == LET n(a, b) == Cardinality({<<i, j>> \in Idx(F) \X (1..3) : F[i][j] = a /\ F[i][(j % 3) + 1] = b})
              IN \A i \in Idx(F) : \A j \in 1..3 : n(F[i][j], F[i][(j % 3) + 1]) = n(F[i][(j % 3) + 1], F[i][j])
Closed(F) == \A v \in UNION {{f[1], f[2]} : f \in Range(F)} : Cardinality({i \in Idx(F) : F[i][1] = v}) = Cardinality({i \in Idx(F) : F[i][2] = v})
SetupJ(e) ==
    LET X == e.in.X  F == e.in.F  P == e.in.P
        es == [i \in Idx(F) |-> Pick(X, F[i])]
        d == TLCEval([q \in Idx(P) |-> TLCEval([i \in Idx(F) |-> ElemD2(P[q], es[i])])])
        sc == TLCEval([q \in Idx(P) |-> MaxD2(P[q], X)])
    IN IF Len(F[1]) = 3 /\ ~Closed3(F) THEN Stop(<< >>, {"setup: surface not closed"}) ELSE
       Ok([X |-> X, F |-> F, P |-> P, sc |-> sc, d |-> d, d2 |-> TLCEval([q \in Idx(P) |-> MinSeq(d[q])]),
           w |-> TLCEval([q \in Idx(P) |-> IF Len(X[1]) = 3 THEN RNum(Wind3(P[q], es)) ELSE IF Closed(F) THEN RNum(WindE(P[q], es)) ELSE WindA(P[q], es)]),
           \* far enough from the curve that rounding cannot decide
           off |-> TLCEval([q \in Idx(P) |-> RLe(RMul("1/1000000000000", sc[q]), MinSeq(d[q]))]),
           \* the ordered polygon without repetitions of the previous vertex is simple
           simple |-> e.in.ordered /\ Simple(SelectSeq([i \in Idx(F) |-> IF es[i][1] = es[i][2] THEN <<>> ELSE es[i][1]], LAMBDA x : x # <<>>))])
WindJ(s, e) ==
    IF ~IsArr(e.out, "f", <<Len(s.P)>>) THEN {e.in.what \o ": shape of the result"}
    ELSE Failing({<<e.in.what \o ": not the winding number of the curve", \A q \in Idx(s.P) : s.off[q] => RIsNum(e.out.a[q]) /\ RNear(e.out.a[q], s.w[q], LTol, "0")>>,
                  <<e.in.what \o ": argument modified", e.in.same>>})
Mag(s, x, q) == RIsNum(x) /\ RNear(RMul(x, x), s.d2[q], RMul(Tol, s.sc[q]), "0")
SignedJ(s, e) ==
    LET np == Len(s.P)  o == e.out  nm == e.in.what \o ": "  w == Len(s.F[1]) IN
    IF o.t # "seq" \/ Len(o.a) # 3 \/ ~IsArr(o.a[1], "f", <<np>>) \/ ~IsArr(o.a[2], "i", <<np>>) \/ ~IsArr(o.a[3], "f", <<np, w>>) THEN {nm \o "shape of the result"}
    ELSE LET i(q) == o.a[2].a[q] + 1  lam(q) == o.a[3].a[q] IN Failing({
       <<nm \o "not the magnitude of the exact distance", \A q \in 1..np : Mag(s, o.a[1].a[q], q)>>,
       <<nm \o "wrong sign", \A q \in 1..np : (s.off[q] /\ ~RNear(s.w[q], "1/2", LTol, "0")) => (RSgn(o.a[1].a[q]) < 0 <=> RLt("1/2", s.w[q]))>>,
       <<nm \o "element does not attain the distance", \A q \in 1..np : i(q) \in Idx(s.F) /\ RNear(s.d[q][i(q)], s.d2[q], RMul(Tol, s.sc[q]), "0")>>,
       <<nm \o "not barycentric coordinates of a closest point", \A q \in 1..np : i(q) \in Idx(s.F) =>
            /\ \A j \in 1..w : RIsNum(lam(q)[j]) /\ RLe(RNeg(LTol), lam(q)[j])
            /\ RNear(RSum(lam(q)), "1", LTol, "0") /\ RNear(D2(s.P[q], Comb(lam(q), Pick(s.X, s.F[i(q)]))), s.d2[q], RMul("1/100000000", s.sc[q]), "0")>>,
       <<nm \o "argument modified", e.in.same>>})
PolyJ(s, e) ==
    LET np == Len(s.P)  o == e.out  nm == "signed_distance_polygon: " IN
    IF ~IsArr(o, "f", <<np>>) THEN {nm \o "shape of the result"}
    ELSE Failing({
       <<nm \o "not the magnitude of the exact distance", \A q \in 1..np : Mag(s, o.a[q], q)>>,
       <<nm \o "wrong sign", \A q \in 1..np : (s.simple /\ s.off[q]) => (RSgn(o.a[q]) < 0 <=> RSgn(s.w[q]) # 0)>>,
       <<nm \o "argument modified", e.in.same>>})
Jdg(s, e) ==
    CASE e.op = "setup" -> SetupJ(e)
      [] e.op = "wind" -> V(s, WindJ(s, e))
      [] e.op = "signed" -> V(s, SignedJ(s, e))
      [] e.op = "poly" -> V(s, PolyJ(s, e))
S0(hist) == [X |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
