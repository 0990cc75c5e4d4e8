------------------------------ MODULE GeoMesh -------------------------------
(* Exact (to 2^-240) metric quantities of simplices with rational corners.    *)
EXTENDS MeshTopo, BigRat
PB == 240
Root(x) == RSqrt(x, PB)
Quo(a, b) == RRound(RDiv(a, b), PB)
Pt(X, i) == X[i + 1]
Vec(X, a, b) == RVSub(Pt(X, b), Pt(X, a))
Nx(j) == (j % 3) + 1
Pv(j) == ((j + 1) % 3) + 1
\* side j (opposite corner j), corner j with the two others in order
SqLen(X, f, j) == RDist2(Pt(X, f[Nx(j)]), Pt(X, f[Pv(j)]))
\* dot product of the two edges leaving corner j
CornerDot(X, f, j) == RDot(Vec(X, f[j], f[Nx(j)]), Vec(X, f[j], f[Pv(j)]))
\* squared double area (any dimension)
DblA2(X, f) == LET u == Vec(X, f[1], f[2])  v == Vec(X, f[1], f[3])  d == RDot(u, v)
               IN RSub(RMul(RDot(u, u), RDot(v, v)), RMul(d, d))
DblA(X, f) == Root(DblA2(X, f))
Cot(X, f, j) == Quo(CornerDot(X, f, j), DblA(X, f))
MaxAbs1(x) == LET f[i \in 0..Len(x)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], RAbs(x[i])) IN f[Len(x)]
MaxAbs2(X) == LET f[i \in 0..Len(X)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], MaxAbs1(X[i])) IN f[Len(X)]
MaxTrip(e) == LET f[i \in 0..Len(e)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], RAbs(e[i][3])) IN f[Len(e)]
\* sparse matrices as triples; duplicates add up
Flat3(m, k, T(_, _)) == [q \in 1..(m * k) |-> T(((q - 1) \div k) + 1, ((q - 1) % k) + 1)]
Half == "1/2"
\* cotangent weight (cot/2) of every side
CotW(X, F) == TLCEval([i \in 1..Len(F) |-> [j \in 1..3 |-> RMul(Half, Cot(X, F[i], j))]])
LapTrip(F, W) == Flat3(Len(F), 12, LAMBDA i, q :
    LET j == ((q - 1) % 3) + 1  a == F[i][Nx(j)]  b == F[i][Pv(j)]  w == W[i][j]  k == (q - 1) \div 3
    IN CASE k = 0 -> <<a, b, RNeg(w)>> [] k = 1 -> <<b, a, RNeg(w)>> [] k = 2 -> <<a, a, w>> [] k = 3 -> <<b, b, w>>)
\* share of corner j in the area of its face
Shares(X, f, type) ==
    LET d == DblA(X, f) IN
    IF type = "barycentric" THEN [j \in 1..3 |-> RMul("1/6", d)]
    ELSE LET ob == {j \in 1..3 : RSgn(CornerDot(X, f, j)) < 0} IN
         IF ob # {} THEN [j \in 1..3 |-> RMul(IF j \in ob THEN "1/4" ELSE "1/8", d)]
         ELSE LET p == [j \in 1..3 |-> RMul(SqLen(X, f, j), Cot(X, f, j))]
              IN [j \in 1..3 |-> RMul("1/8", RAdd(p[Nx(j)], p[Pv(j)]))]
MassTrip(X, F, type) ==
    IF type = "full" THEN Flat3(Len(F), 9, LAMBDA i, q : LET a == ((q - 1) \div 3) + 1  b == ((q - 1) % 3) + 1 IN
        <<F[i][a], F[i][b], RMul(IF a = b THEN "1/12" ELSE "1/24", DblA(X, F[i]))>>)
    ELSE LET s == TLCEval([i \in 1..Len(F) |-> Shares(X, F[i], type)])
         IN Flat3(Len(F), 3, LAMBDA i, j : <<F[i][j], F[i][j], s[i][j]>>)
\* lumped mass as a vector
MassVec(X, F, type, n) == RSpMV(MassTrip(X, F, type), n, [i \in 1..n |-> "1"])
\* gradient of the linear interpolant of u on a face with corners in the plane or in space:
\* the tangential vector g with g.(p1-p0) = u1-u0 and g.(p2-p0) = u2-u0
GradOf(X, f, u) ==
    LET a == Vec(X, f[1], f[2])  b == Vec(X, f[1], f[3])  d2 == DblA2(X, f)
        s == RSub(u[f[2] + 1], u[f[1] + 1])  t == RSub(u[f[3] + 1], u[f[1] + 1])
        aa == RDot(a, a)  ab == RDot(a, b)  bb == RDot(b, b)
        x == Quo(RSub(RMul(s, bb), RMul(t, ab)), d2)
        y == Quo(RSub(RMul(t, aa), RMul(s, ab)), d2)
    IN RVAdd(RVScale(x, a), RVScale(y, b))
=============================================================================
