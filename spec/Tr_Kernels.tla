----------------------------- MODULE Tr_Kernels -----------------------------
(* P30: kernels, assembled matrices, and histories of regression objects.     *)
EXTENDS Kernels, Outcome
VARIABLES h, l, st, bad
Abs(x) == RAbs(x)
\* a jump of the second derivative of a quadratic spline: either side will do
AtJump(i, r) == i.n = 2 /\ i.k > 0 /\ LET z == RAbs(RDiv(RSub(i.x[r][i.k], i.c[i.k]), i.s)) IN RNear(z, "1/2", "1/1000000000", "0") \/ RNear(z, "3/2", "1/1000000000", "0")
DensityJ(e) == LET i == e.in  o == e.out  d == Len(i.x[1]) IN
    IF ~IsArr(o, "f", <<Len(i.x)>>) THEN {"compactly_supported_normal: shape"}
    ELSE LET tol == RDiv("1/1000000000000", Pow(i.s, IF i.k = 0 THEN d ELSE d + 2)) IN Failing({
      <<"compactly_supported_normal: value", \A r \in 1..Len(i.x) : AtJump(i, r) \/ RNear(o.a[r], Density(i.n, i.s, i.c, i.k, i.x[r]), tol, "0")>>,
      <<"compactly_supported_normal: argument modified", i.same>>})
KernelJ(e) == LET i == e.in  o == e.out  d == Len(i.x[1])  nm == IF i.gauss THEN "squared_exponential_kernel" ELSE "compactly_supported_normal_kernel" IN
    IF ~IsArr(o, "f", <<Len(i.x)>>) THEN {nm \o ": shape"}
    ELSE Failing({
      <<nm \o ": value", \A r \in 1..Len(i.x) : LET w == IF i.gauss THEN Gauss(i.x[r], i.y[r], i.len[r], i.scale, i.i, i.j) ELSE Compact(i.x[r], i.y[r], i.len[r], i.scale, i.i, i.j)
                                                  m == RMul(RAbs(i.scale), RDiv("1", Pow(i.len[r], (IF i.gauss THEN 0 ELSE d) + (IF i.i = 0 THEN 0 ELSE 1) + (IF i.j = 0 THEN 0 ELSE 1)))) IN
                                              RNear(o.a[r], w, RMul("1/1000000000000", m), "1/1000000000")>>,
      <<nm \o ": argument modified", i.same>>})
MatrixJ(e) == LET i == e.in  o == e.out  n == Len(i.M)  m == Len(i.M[1])
                  want == Mat(n, m, LAMBDA a, b : IF i.all \/ (\E q \in 1..Len(i.I) : i.I[q] = a - 1 /\ i.J[q] = b - 1) THEN i.M[a][b] ELSE "0") IN
    IF (i.sparse /\ ~IsSp(o, <<n, m>>)) \/ (~i.sparse /\ ~IsArr(o, "f", <<n, m>>)) THEN {"matrix_from_function: shape or kind of the result"}
    ELSE Failing({<<"matrix_from_function: entry", (IF i.sparse THEN Dense(o.e, n, m) ELSE o.a) = want>>,
                  <<"matrix_from_function: zero entries stored", i.sparse => i.stored = Len(o.e)>>,
                  <<"matrix_from_function: argument modified", i.same>>})
\* a fitted object is its data: the state maps objects to problems
FitJ(s, e) == [st |-> (e.in.id :> e.in) @@ s, stop |-> FALSE, bad |-> Failing({<<"gaussian_process: argument modified", e.in.same>>})]
PredJ(s, e) ==
    LET i == e.in  f == s[i.id]  o == e.out  p == Len(i.K1)
        R == IF f.induced THEN Induced(f.Q, f.P, f.s2, i.K2, i.K1, f.y)
             ELSE Posterior(WithNoise(IF f.lump THEN Lumped(f.K) ELSE f.K, f.s2), i.K2, i.K1, f.y) IN
    IF o.t # "seq" \/ Len(o.a) # 2 \/ ~IsArr(o.a[1], "f", <<p>>) THEN {"gaussian_process: shape of the mean"}
    ELSE IF i.monly THEN Failing({<<"gaussian_process: covariance although only the mean was asked for", o.a[2].t = "none">>,
                                  <<"gaussian_process: mean", RVNear(o.a[1].a, R.mean, i.tol, "0")>>})
    ELSE IF ~IsArr(o.a[2], "f", <<p, p>>) THEN {"gaussian_process: shape of the covariance"}
    ELSE Failing({<<"gaussian_process: mean", RVNear(o.a[1].a, R.mean, i.tol, "0")>>,
                  <<"gaussian_process: covariance", \A a \in 1..p : RVNear(o.a[2].a[a], R.cov[a], i.ctol, "0")>>,
                  <<"gaussian_process: argument modified", i.same>>})
Jdg(s, e) == CASE e.op = "fit" -> FitJ(s, e) [] e.op = "predict" -> V(s, PredJ(s, e)) [] e.op = "density" -> V(s, DensityJ(e)) [] e.op = "kernel" -> V(s, KernelJ(e)) [] e.op = "matrix" -> V(s, MatrixJ(e))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
