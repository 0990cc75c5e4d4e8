------------------------------- MODULE Deform -------------------------------
(* Linear blend skinning, Catmull-Rom curves, rotations between directions,   *)
(* normalisation of point sets.                                               *)
EXTENDS LinAlg
\* ---- skinning: V n x 3, W n x m, R m matrices, T m vectors
Skin(V, W, R, T) == [v \in 1..Len(V) |->
    LET s[j \in 0..Len(R)] == IF j = 0 THEN <<"0", "0", "0">> ELSE RVAdd(s[j-1], RVScale(W[v][j], RVAdd(MV(R[j], V[v]), T[j]))) IN s[Len(R)]]
\* ---- Catmull-Rom: cubic Hermite pieces, inner tangents from the neighbours, end tangents from the end pieces
Knots(P) == Len(P) - 1
Tangent(P, i) == IF i = 1 THEN RVSub(P[2], P[1]) ELSE IF i = Len(P) THEN RVSub(P[Len(P)], P[Len(P) - 1]) ELSE RVScale("1/2", RVSub(P[i + 1], P[i - 1]))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* piece of parameter t in [0, 1] (either one at a knot), and the local parameter
Piece(P, t) == Max(1, Min(Knots(P), RToInt(RFloor(RMul(t, RNum(Knots(P)))), 0) + 1))
Local(P, t, b) == RSub(RMul(t, RNum(Knots(P))), RNum(b - 1))
Poly(c, t) == RAdd(c[1], RMul(t, RAdd(c[2], RMul(t, RAdd(c[3], RMul(t, c[4]))))))
Comb(c, X) == RVAdd(RVAdd(RVScale(c[1], X[1]), RVScale(c[2], X[2])), RVAdd(RVScale(c[3], X[3]), RVScale(c[4], X[4])))
PieceAt(P, b, s) == Comb(<<Poly(<<"1", "0", "-3", "2">>, s), Poly(<<"0", "0", "3", "-2">>, s), Poly(<<"0", "1", "-2", "1">>, s), Poly(<<"0", "0", "-1", "1">>, s)>>,
                         <<P[b], P[b + 1], Tangent(P, b), Tangent(P, b + 1)>>)
PieceSlope(P, b, s) == Comb(<<Poly(<<"0", "-6", "6", "0">>, s), Poly(<<"0", "6", "-6", "0">>, s), Poly(<<"1", "-4", "3", "0">>, s), Poly(<<"0", "-2", "3", "0">>, s)>>,
                            <<P[b], P[b + 1], Tangent(P, b), Tangent(P, b + 1)>>)
Curve(P, t) == LET b == Piece(P, t) IN PieceAt(P, b, Local(P, t, b))
\* ---- rotations
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN "1" ELSE "0")
Det3(M) == RDot(M[1], RCross(M[2], M[3]))
Det(M) == IF Len(M) = 2 THEN RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1])) ELSE Det3(M)
MNear(A, B, tol) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : RNear(A[i][j], B[i][j], tol, "0")
Rotation(M, tol) == LET n == Len(M) IN MNear(MMul(MT(M, n, n), M, n), Eye(n), tol) /\ RNear(Det(M), "1", tol, "0")
\* M takes the direction of a to that of b (unit vectors up to 2^-200)
Unit(a) == LET q == RSqrt(RDot(a, a), 900) IN [i \in 1..Len(a) |-> RRound(RDiv(a[i], q), 200)]
Takes(M, a, b, tol) == RVNear(MV(M, Unit(a)), Unit(b), tol, "0")
\* ---- normalisation: one scale, one shift per axis; the box fits tightly into the unit cube centred at c
Lo(V, j) == LET f[i \in 1..Len(V)] == IF i = 1 THEN V[1][j] ELSE RMin(f[i-1], V[i][j]) IN f[Len(V)]
Hi(V, j) == LET f[i \in 1..Len(V)] == IF i = 1 THEN V[1][j] ELSE RMax(f[i-1], V[i][j]) IN f[Len(V)]
Extent(V) == LET f[j \in 0..Len(V[1])] == IF j = 0 THEN "0" ELSE RMax(f[j-1], RSub(Hi(V, j), Lo(V, j))) IN f[Len(V[1])]
Normal(V, c) == LET e == Extent(V) IN
    [i \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> RAdd(c[j], RDiv(RSub(V[i][j], RMul("1/2", RAdd(Lo(V, j), Hi(V, j)))), e))]]
=============================================================================
