----------------------------- MODULE MC_Kernels -----------------------------
(* Splines on a lattice: partition of unity, symmetry, support, positivity,   *)
(* slopes of the splines are those of the values (a quadrature exact for the  *)
(* pieces); kernels are symmetric with antisymmetric first derivatives.       *)
(* Regression on small systems: exact interpolation without noise, symmetric  *)
(* covariance of non-negative variance, inducing at the data changes nothing. *)
EXTENDS Kernels, Json
VARIABLES k, q
Lat == {RDiv(RNum(i), "16") : i \in -48..48}
Pts2 == {<<a, b>> : a, b \in {"-1/2", "0", "3/4", "2"}}
Mats == {<<a, b, c>> : a \in {2, 3}, b \in {-1, 0, 1}, c \in {2, 4}}
Init == \/ k = "spline" /\ q \in {<<n, x>> : n \in 1..4, x \in Lat}
        \/ k = "kernel" /\ q \in {<<x, y>> : x, y \in Pts2}
        \/ k = "gp" /\ q \in {<<M, y, t>> : M \in Mats, y \in {<<a, b>> : a, b \in -1..1}, t \in {<<a, b>> : a, b \in -1..2}}
Next == FALSE /\ UNCHANGED <<k, q>>
Spec == Init /\ [][Next]_<<k, q>>
SplineOk == k = "spline" => LET n == q[1]  x == q[2] IN
    /\ RSum([i \in 1..7 |-> Spline(n, RAdd(x, RNum(i - 4)))]) = (IF RLe(RAbs(x), "3/2") THEN "1" ELSE RSum([i \in 1..7 |-> Spline(n, RAdd(x, RNum(i - 4)))]))
    /\ Spline(n, x) = Spline(n, RNeg(x)) /\ RLe("0", Spline(n, x)) /\ (Spline(n, x) = "0" <=> RLe(RDiv(RNum(n + 1), "2"), RAbs(x)))
    \* N(x + h) - N(x) is the integral of the slope: Simpson's rule is exact for pieces of degree <= 4
    /\ n >= 2 => LET hh == "1/16"  a == x  b == RAdd(x, hh) IN
          RSub(Spline(n, b), Spline(n, a)) = RMul(RDiv(hh, "6"), RAdd(Slope(n, a), RAdd(RMul("4", Slope(n, RAdd(a, "1/32"))), Slope(n, b))))
    /\ n >= 3 => LET hh == "1/16"  a == x  b == RAdd(x, hh) IN
          RSub(Slope(n, b), Slope(n, a)) = RMul(RDiv(hh, "6"), RAdd(Bend(n, a), RAdd(RMul("4", Bend(n, RAdd(a, "1/32"))), Bend(n, b))))
KernelOk == k = "kernel" => LET x == q[1]  y == q[2] IN \A len \in {"1/2", "1"} :
    /\ Compact(x, y, len, "3", 0, 0) = Compact(y, x, len, "3", 0, 0)
    /\ \A i \in 1..2 : Compact(x, y, len, "1", i, 0) = Compact(y, x, len, "1", 0, i) /\ Compact(x, y, len, "1", i, 0) = RNeg(Compact(x, y, len, "1", 0, i))
    /\ \A i, j \in 1..2 : Compact(x, y, len, "1", i, j) = Compact(y, x, len, "1", j, i) /\ Compact(x, y, len, "1", i, j) = Compact(x, y, len, "1", j, i)
    /\ \A i, j \in 0..2 : RNear(Gauss(x, y, len, "1", i, j), Gauss(y, x, len, "1", j, i), "1/1000000000000", "0")
K == LET m == q[1] IN << <<RNum(m[1]), RNum(m[2])>>, <<RNum(m[2]), RNum(m[3])>> >>
Y == <<RNum(q[2][1]), RNum(q[2][2])>>
Tst == <<RNum(q[3][1]), RNum(q[3][2])>>
Exact == k = "gp" =>
    LET R0 == Posterior(K, K, K, Y)                       \* test points = data, no noise
        K2 == << <<K[1][1], Tst[1]>>, <<K[2][1], Tst[2]>> >>
        K1 == << <<K[1][1], K2[1][2]>>, <<K2[1][2], "9">> >>
        R1 == Posterior(WithNoise(K, "1/4"), K2, K1, Y)
        R2 == Induced(K, K, "1/4", K2, K1, Y)
    IN /\ R0.mean = Y /\ R0.cov = Zeros(2, 2)
       /\ R1.cov[1][2] = R1.cov[2][1] /\ RLt("0", R1.cov[1][1])
       /\ R2.mean = R1.mean /\ R2.cov = R1.cov
Emit == k = "spline" => PrintT("GEN " \o ToJson([n |-> q[1], x |-> q[2]]))
=============================================================================
