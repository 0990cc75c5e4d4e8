------------------------------- MODULE Colors -------------------------------
(* Colour tables, their cubic resampling, and the lookup of values in a table.*)
EXTENDS LinAlg, BrewerData
Channel(T, c) == [i \in 1..Len(T) |-> RNum(T[i][c])]
Largest(name) == Brewer[name][Len(Brewer[name])]
\* second derivatives (times h^2) of the cubic spline through equally spaced y whose first and last two pieces are one cubic each
SplineM(N) == TLCEval([r \in 1..N |-> [k \in 1..N |->
    IF r = 1 THEN (IF k = 1 \/ k = 3 THEN "1" ELSE IF k = 2 THEN "-2" ELSE "0")
    ELSE IF r = N THEN (IF k = N \/ k = N - 2 THEN "1" ELSE IF k = N - 1 THEN "-2" ELSE "0")
    ELSE IF k = r THEN "4" ELSE IF k = r - 1 \/ k = r + 1 THEN "1" ELSE "0"]])
SplineRhs(y) == LET N == Len(y) IN [r \in 1..N |-> <<IF r = 1 \/ r = N THEN "0" ELSE RMul("6", RAdd(RSub(y[r - 1], RMul("2", y[r])), y[r + 1]))>>]
Curvature(y) == TLCEval(MCol(SolveLin(SplineM(Len(y)), SplineRhs(y)), 1))
\* the spline at parameter p in [0, N-1], given the curvatures m
SplineAt(y, m, p) ==
    LET N == Len(y)  q == RToInt(RFloor(p), 0)  b == IF q >= N - 1 THEN N - 1 ELSE q + 1
        t == RSub(p, RNum(b - 1))  s == RSub("1", t)
        g(x) == RDiv(RSub(RMul(x, RMul(x, x)), x), "6")
    IN RAdd(RAdd(RMul(s, y[b]), RMul(t, y[b + 1])), RAdd(RMul(g(s), m[b]), RMul(g(t), m[b + 1])))
Cut(x) == RMax("0", RMin("255", x))
\* n colours resampled from the largest table
Resample(T, n) ==
    LET N == Len(T)
        y == TLCEval([c \in 1..3 |-> Channel(T, c)])  m == TLCEval([c \in 1..3 |-> Curvature(y[c])])
    IN Mat(n, 3, LAMBDA i, c : IF n = 1 THEN y[c][1] ELSE Cut(SplineAt(y[c], m[c], RDiv(RNum((i - 1) * (N - 1)), RNum(n - 1)))))
\* ---- lookup: table C (rows), nodes x (strictly increasing), value f in [x[1], x[Len(x)]]
Clamp(f, lo, hi) == RMax(lo, RMin(hi, f))
\* the piece of f: the last node not above f (but not the last one)
PieceOf(x, f) == LET S == {j \in 1..(Len(x) - 1) : RLe(x[j], f)} IN IF S = {} THEN 1 ELSE CHOOSE j \in S : \A q \in S : q <= j
Theta(x, f, b) == RDiv(RSub(f, x[b]), RSub(x[b + 1], x[b]))
\* possible whole numbers a value rounds to, ties (up to tol) either way
Rounds(v, k, tol) == RLe(RAbs(RSub(v, k)), RAdd("1/2", tol))
Blend(a, b, t) == RAdd(a, RMul(t, RSub(b, a)))
IsRow(k, row, tol) == \A c \in 1..3 : Rounds(row[c], k[c], tol)
\* k is a colour the piecewise constant table gives f (half-way: either neighbour)
StepColour(C, x, f, k, tol) == LET b == PieceOf(x, f)  t == Theta(x, f, b) IN
    \/ RLe(t, RAdd("1/2", tol)) /\ IsRow(k, C[b], tol)
    \/ RLe(RSub("1/2", tol), t) /\ IsRow(k, C[b + 1], tol)
LinearColour(C, x, f, k, tol) == LET b == PieceOf(x, f)  t == Theta(x, f, b) IN \A c \in 1..3 : Rounds(Blend(C[b][c], C[b + 1][c], t), k[c], tol)
Even(lo, hi, n) == TLCEval([j \in 1..n |-> Blend(lo, hi, RDiv(RNum(j - 1), RNum(n - 1)))])
\* x are n geometrically spaced nodes from lo to hi (relative error eps of every power)
RPow(a, k) == LET p[i \in 0..k] == IF i = 0 THEN "1" ELSE RMul(p[i - 1], a) IN p[k]
Geometric(x, lo, hi, eps) == LET n == Len(x) - 1 IN
    /\ x[1] = lo /\ x[n + 1] = hi
    /\ \A j \in 1..(n + 1) : LET w == RMul(RPow(lo, n + 1 - j), RPow(hi, j - 1)) IN RNear(RPow(x[j], n), w, "0", eps)
=============================================================================
