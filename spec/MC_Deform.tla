------------------------------ MODULE MC_Deform -----------------------------
(* Curves through all small control polygons interpolate and are C1; rotations *)
(* between all lattice vectors of equal length exist and satisfy the relation, *)
(* half-turns for opposite ones; normalised boxes are tight.                   *)
EXTENDS Deform, Json
VARIABLES k, q
Ps == {p \in UNION {[1..n -> -1..1] : n \in 2..5} : TRUE}
Vecs == {<<a, b, c>> : a, b, c \in -2..2} \ {<<0, 0, 0>>}
N2(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Init == \/ k = "curve" /\ q \in Ps
        \/ k = "rot" /\ q \in {<<a, b>> \in Vecs \X Vecs : N2(a) = N2(b)}
        \/ k = "box" /\ q \in {<<a, b>> \in Vecs \X Vecs : a # b}
Next == FALSE /\ UNCHANGED <<k, q>>
Spec == Init /\ [][Next]_<<k, q>>
P == [i \in 1..Len(q) |-> <<RNum(q[i])>>]
Knot(i) == RDiv(RNum(i - 1), RNum(Knots(P)))
CurveOk == k = "curve" =>
    /\ \A i \in 1..Len(q) : Curve(P, Knot(i)) = P[i]
    /\ \A b \in 1..(Knots(P) - 1) : PieceAt(P, b, "1") = PieceAt(P, b + 1, "0") /\ PieceSlope(P, b, "1") = PieceSlope(P, b + 1, "0")
    /\ PieceSlope(P, 1, "0") = Tangent(P, 1) /\ PieceSlope(P, Knots(P), "1") = Tangent(P, Len(P))
R3(a) == [i \in 1..3 |-> RNum(a[i])]
Skew(v) == << <<"0", RNeg(v[3]), v[2]>>, <<v[3], "0", RNeg(v[1])>>, <<RNeg(v[2]), v[1], "0">> >>
SmallAxis(a) == CHOOSE p \in {RCross(a, e) : e \in {<<"1","0","0">>, <<"0","1","0">>, <<"0","0","1">>}} : RSgn(RDot(p, p)) # 0
Between(a, b) == LET n == RDot(a, a)  c == RDiv(RDot(a, b), n)  K == Mat(3, 3, LAMBDA i, j : RDiv(Skew(RCross(a, b))[i][j], n)) IN
    IF c = "-1" THEN LET p == SmallAxis(a)  s == RDot(p, p) IN Mat(3, 3, LAMBDA i, j : RSub(RDiv(RMul("2", RMul(p[i], p[j])), s), Eye(3)[i][j]))
    ELSE LET K2 == MMul(K, K, 3) IN Mat(3, 3, LAMBDA i, j : RAdd(Eye(3)[i][j], RAdd(K[i][j], RDiv(K2[i][j], RAdd("1", c)))))
RotOk == k = "rot" => LET a == R3(q[1])  b == R3(q[2])  M == TLCEval(Between(a, b)) IN
    /\ Rotation(M, "0") /\ MV(M, a) = b
    /\ Takes(M, a, b, "1/1000000000000")
    /\ ~Rotation(Mat(3, 3, LAMBDA i, j : RNeg(M[i][j])), "1/2")
BoxOk == k = "box" => LET V == <<R3(q[1]), R3(q[2])>>  U == Normal(V, <<"1/2", "0", "-1">>) IN
    Extent(U) = "1" /\ \A j \in 1..3 : RAdd(Lo(U, j), Hi(U, j)) = RMul("2", <<"1/2", "0", "-1">>[j])
Emit == (k = "rot" \/ (k = "curve" /\ Len(q) > 1)) => PrintT("GEN " \o ToJson([k |-> k, q |-> q]))
=============================================================================
