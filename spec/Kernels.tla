------------------------------- MODULE Kernels ------------------------------
(* Compactly supported normals are products of centred cardinal B-splines:    *)
(* degree n + 1 is the box filtered once more.  The squared exponential and   *)
(* its derivatives.  Gaussian process regression by its normal equations.     *)
EXTENDS LinAlg
RECURSIVE Spline(_, _)
\* centred B-spline of degree n (n = 0: the box)
Spline(n, x) ==
    IF n = 0 THEN (IF RLt("-1/2", x) /\ RLt(x, "1/2") THEN "1" ELSE IF RAbs(x) = "1/2" THEN "1/2" ELSE "0")
    ELSE LET w == RDiv(RNum(n + 1), "2") IN
         IF RLe(w, RAbs(x)) THEN "0"
         ELSE RDiv(RAdd(RMul(RAdd(w, x), Spline(n - 1, RAdd(x, "1/2"))), RMul(RSub(w, x), Spline(n - 1, RSub(x, "1/2")))), RNum(n))
Slope(n, x) == RSub(Spline(n - 1, RAdd(x, "1/2")), Spline(n - 1, RSub(x, "1/2")))
Bend(n, x) == RSub(Slope(n - 1, RAdd(x, "1/2")), Slope(n - 1, RSub(x, "1/2")))
Prod(d, f(_)) == LET g[i \in 0..d] == IF i = 0 THEN "1" ELSE RMul(g[i-1], f(i)) IN g[d]
Pow(x, k) == Prod(k, LAMBDA i : x)
\* density: degree n, width s, centre c; second derivative along dimension k (0 = none)
Density(n, s, c, k, x) ==
    LET z(i) == RDiv(RSub(x[i], c[i]), s)  d == Len(x) IN
    RDiv(Prod(d, LAMBDA i : IF i = k THEN Bend(n, z(i)) ELSE Spline(n, z(i))), Pow(s, IF k = 0 THEN d ELSE d + 2))
\* kernel k(x1, x2) = product of cubic splines of (x1 - x2) / len; derivatives along x1_i and x2_j (0 = none)
Compact(x, y, len, scale, i, j) ==
    LET z(q) == RDiv(RSub(x[q], y[q]), len)  d == Len(x)
        o == (IF i = 0 THEN 0 ELSE 1) + (IF j = 0 THEN 0 ELSE 1)
        f(q) == IF q = i /\ q = j THEN RNeg(Bend(3, z(q))) ELSE IF q = i THEN Slope(3, z(q)) ELSE IF q = j THEN RNeg(Slope(3, z(q))) ELSE Spline(3, z(q))
    IN RDiv(RMul(scale, Prod(d, f)), Pow(len, d + o))
Gauss(x, y, len, scale, i, j) ==
    LET d == Len(x)  g == RDiv("1", RMul(len, len))  r(q) == RSub(x[q], y[q])
        e == RMul(scale, RExp(RMul("-1/2", RMul(g, RDist2(x, y))), 120))
        f == IF i = 0 /\ j = 0 THEN "1" ELSE IF j = 0 THEN RNeg(RMul(g, r(i))) ELSE IF i = 0 THEN RMul(g, r(j))
             ELSE RSub(IF i = j THEN g ELSE "0", RMul(RMul(g, g), RMul(r(i), r(j))))
    IN RMul(f, e)
\* ---- regression: C covariance of the data (with noise), K2 data x test, K1 test x test
Weights(C, y) == MCol(SolveLin(C, [i \in 1..Len(y) |-> <<y[i]>>]), 1)
Posterior(C, K2, K1, y) ==
    LET p == Len(K1)  n == Len(C)
        S == SolveLin(C, [i \in 1..n |-> <<y[i]>> \o K2[i]])
    IN [mean |-> TLCEval([t \in 1..p |-> RDot(MCol(K2, t), MCol(S, 1))]),
        cov |-> Mat(p, p, LAMBDA a, b : RSub(K1[a][b], RDot(MCol(K2, a), MCol(S, b + 1))))]
\* with inducing points: Q = Kmm, P = Kmn, Sg = Kmm + Kmn Knm / s^2
Induced(Q, P, s2, K2, K1, y) ==
    LET p == Len(K1)  m == Len(Q)
        Sg == MAdd(Q, Mat(m, m, LAMBDA i, j : RDiv(RDot(P[i], P[j]), s2)))
        A == SolveLin(Sg, [i \in 1..m |-> <<RDiv(RDot(P[i], y), s2)>> \o K2[i]])
        B == SolveLin(Q, K2)
    IN [mean |-> TLCEval([t \in 1..p |-> RDot(MCol(K2, t), MCol(A, 1))]),
        cov |-> Mat(p, p, LAMBDA a, b : RAdd(RSub(K1[a][b], RDot(MCol(K2, a), MCol(B, b))), RDot(MCol(K2, a), MCol(A, b + 1))))]
WithNoise(K, s2) == Mat(Len(K), Len(K), LAMBDA i, j : IF i = j THEN RAdd(K[i][j], s2) ELSE K[i][j])
Lumped(K) == Mat(Len(K), Len(K), LAMBDA i, j : IF i = j THEN RSum(K[i]) ELSE "0")
=============================================================================
