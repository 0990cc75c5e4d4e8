------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra over the rationals: dense matrices are sequences of   *)
(* rows; sparse ones are sequences of entries <<i, j, "v">> (0-based).        *)
EXTENDS BigRat, FiniteSets, TLC
Mat(n, m, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> f(i, j)])])
Zeros(n, m) == Mat(n, m, LAMBDA i, j : "0")
\* dense form of the entries
Dense(trip, n, m) ==
    LET g == TLCEval([k \in {<<trip[q][1] + 1, trip[q][2] + 1>> : q \in 1..Len(trip)} |->
                RSum([q \in 1..Len(trip) |-> IF <<trip[q][1] + 1, trip[q][2] + 1>> = k THEN trip[q][3] ELSE "0"])])
    IN Mat(n, m, LAMBDA i, j : IF <<i, j>> \in DOMAIN g THEN g[<<i, j>>] ELSE "0")
MT(M, n, m) == Mat(m, n, LAMBDA i, j : M[j][i])                \* transpose of an n x m matrix
MCol(M, j) == [i \in 1..Len(M) |-> M[i][j]]
MMul(M, B, p) == Mat(Len(M), p, LAMBDA i, j : RDot(M[i], MCol(B, j)))
MAdd(M, B) == [i \in 1..Len(M) |-> RVAdd(M[i], B[i])]
MSub(M, B) == [i \in 1..Len(M) |-> RVSub(M[i], B[i])]
MV(M, x) == [i \in 1..Len(M) |-> RDot(M[i], x)]
MSub2(M, r, c) == Mat(Len(r), Len(c), LAMBDA i, j : M[r[i]][c[j]])  \* rows r, columns c
\* Gauss-Jordan elimination of the augmented matrix W (n rows): << >> if the left block is singular
RECURSIVE Elim(_, _, _)
Elim(W, j, n) ==
    IF j > n THEN W
    ELSE LET piv == {r \in j..n : RSgn(W[r][j]) # 0} IN
         IF piv = {} THEN << >>
         ELSE LET p == CHOOSE r \in piv : \A q \in piv : r <= q
                  row == TLCEval(RVScale(RDiv("1", W[p][j]), W[p]))
                  W2 == TLCEval([r \in 1..n |->
                          IF r = j THEN row
                          ELSE LET old == IF r = p THEN W[j] ELSE W[r]
                               IN IF RSgn(old[j]) = 0 THEN old ELSE TLCEval(RVSub(old, RVScale(old[j], row)))])
              IN Elim(W2, j + 1, n)
\* X with M X = B (M is n x n, B is n x p); << >> if M is singular
SolveLin(M, B) ==
    LET n == Len(M) IN
    IF n = 0 THEN << >>
    ELSE LET p == Len(B[1])
             W == Elim(TLCEval([i \in 1..n |-> M[i] \o B[i]]), 1, n)
         IN IF W = << >> THEN << >> ELSE Mat(n, p, LAMBDA i, j : W[i][n + j])
RMaxAbs(x) == LET f[i \in 0..Len(x)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], RAbs(x[i])) IN f[Len(x)]
MMaxAbs(M) == LET f[i \in 0..Len(M)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], RMaxAbs(M[i])) IN f[Len(M)]
=============================================================================
