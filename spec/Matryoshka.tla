----------------------------- MODULE Matryoshka -----------------------------
(* Nesting a scaled, turned and moved copy of B inside A so that A, cut by a  *)
(* plane, can be pulled off along two directions (Jacobson, SGP 2017).        *)
(* Geometry is exact: points are sequences of rational numerals.              *)
EXTENDS BigRat, Integers, Sequences, FiniteSets, TLC
\* ---- the copy of B
Mul3(R, x) == [i \in 1..3 |-> RDot(R[i], x)]
Copy(W, b, s, R, c) == TLCEval([v \in 1..Len(W) |-> RVAdd(c, RVScale(s, Mul3(R, RVSub(W[v], b))))])
Mean(W) == TLCEval([k \in 1..3 |-> RDiv(RSum([v \in 1..Len(W) |-> W[v][k]]), ToString(Len(W)))])
Rotation(R, tol) == /\ \A i, j \in 1..3 : RNear(RDot(R[i], R[j]), IF i = j THEN "1" ELSE "0", tol, "0")
                    /\ RLt("0", RDot(R[1], RCross(R[2], R[3])))
\* ---- an outer body: triangles with outward normals
Tri(V, F, k) == <<V[F[k][1] + 1], V[F[k][2] + 1], V[F[k][3] + 1]>>
Planes(V, F) == TLCEval([k \in 1..Len(F) |-> LET t == TLCEval(Tri(V, F, k)) IN LET n == TLCEval(RCross(RVSub(t[2], t[1]), RVSub(t[3], t[1]))) IN [n |-> n, d |-> RDot(n, t[1]), len |-> RSqrt(RDot(n, n), 60)]])
Convex(V, P) == \A k \in 1..Len(P) : \A v \in 1..Len(V) : RLe(RDot(P[k].n, V[v]), P[k].d)
\* deeper than m inside a convex body
Deep(P, x, m) == \A k \in 1..Len(P) : RLe(RDot(P[k].n, x), RSub(P[k].d, RMul(m, P[k].len)))
\* where the ray from an inside point leaves a convex body
Exit(P, x, d) ==
    LET f[k \in 0..Len(P)] == IF k = 0 THEN "inf" ELSE
              LET v == RDot(P[k].n, d) IN
              IF RLe(v, "0") THEN f[k-1] ELSE
              LET t == RDiv(RSub(P[k].d, RDot(P[k].n, x)), v) IN IF f[k-1] = "inf" \/ RLt(t, f[k-1]) THEN t ELSE f[k-1]
    IN RVAdd(x, RVScale(f[Len(P)], d))
Side(q, g) == RDot(RVSub(q, g.p), g.n)          \* g: the plane and the two directions
\* all points fit, and neither half of A hits a point on its way out
Fits(P, X, g, deep, slack) ==
    \A v \in 1..Len(X) :
       /\ Deep(P, X[v], deep)
       /\ RLe(Side(Exit(P, X[v], RVScale("-1", g.up)), g), slack)
       /\ RLe(RNeg(slack), Side(Exit(P, X[v], RVScale("-1", g.dn)), g))
FitsLoose(P, X, g) == Fits(P, X, g, "0", "2/1000000")
FitsSure(P, X, g) == Fits(P, X, g, "2/1000000", "0")
\* ---- any closed body, by rays and triangles
\* the ray meets a triangle at t: inner margin e in barycentric coordinates ("" if not)
Meets(t, x, d, e) ==
    LET e1 == RVSub(t[2], t[1])  e2 == RVSub(t[3], t[1])  p == RCross(d, e2)
        det == RDot(p, e1)
    IN IF RSgn(det) = 0 THEN "" ELSE
       LET u == RDiv(RDot(RVSub(x, t[1]), p), det)  q == RCross(RVSub(x, t[1]), e1)
           v == RDiv(RDot(d, q), det)  s == RDiv(RDot(e2, q), det)
       IN IF RLe(e, u) /\ RLe(e, v) /\ RLe(RAdd(u, v), RSub("1", e)) /\ RLt("0", s) THEN s ELSE ""
Hits(V, F, x, d, e) == TLCEval({s \in {Meets(Tri(V, F, k), x, d, e) : k \in 1..Len(F)} : s # ""})
Generic == <<"371/1000", "-533/997", "761/1009">>
InBody(V, F, x) == LET h == [k \in 1..Len(F) |-> Meets(Tri(V, F, k), x, Generic, "0")] IN Cardinality({k \in 1..Len(F) : h[k] # ""}) % 2 = 1
\* surely on the wrong side: the first clear hit is, and no other hit comes before it
Blocked(V, F, x, d, g, up) ==
    LET sure == Hits(V, F, x, d, "1/1000000000")  any == Hits(V, F, x, d, "-1/1000000000")
    IN sure # {} /\ LET t == CHOOSE a \in sure : \A b \in sure : RLe(a, b)
                        s == Side(RVAdd(x, RVScale(t, d)), g)
                    IN /\ \A b \in any : RLe(RSub(t, "1/1000000000"), b)
                       /\ IF up THEN RLt("2/1000000", s) ELSE RLt(s, "-2/1000000")
FitsBody(V, F, X, g) == \A v \in 1..Len(X) : /\ InBody(V, F, X[v])
                                             /\ ~Blocked(V, F, X[v], RVScale("-1", g.up), g, TRUE)
                                             /\ ~Blocked(V, F, X[v], RVScale("-1", g.dn), g, FALSE)
\* ---- the search for the largest scale: keep a feasible and an infeasible end
Start(lo, hi) == [lo |-> lo, hi |-> hi]
Halve(q, ok) == LET m == (q.lo + q.hi) \div 2 IN IF ok THEN [q EXCEPT !.lo = m] ELSE [q EXCEPT !.hi = m]
\* ---- the best configuration seen so far
Seen(best, s) == IF s > best THEN s ELSE best
=============================================================================
