----------------------------- MODULE QuadSolve ------------------------------
(* Linearly constrained quadratic minimisation                                *)
(*     min 1/2 tr(u'Qu) + tr(c'u)   s.t.  A u = b,  u[k] = y                  *)
(* and the square linear system with fixed degrees of freedom, as state       *)
(* machines: a solver object is bound to the matrices it was made with, and   *)
(* every later solve answers for those, whatever the caller does to the       *)
(* arrays meanwhile and whatever was solved before.                           *)
EXTENDS LinAlg
Sym(Q, n) == Mat(n, n, LAMBDA i, j : RDiv(RAdd(Q[i][j], Q[j][i]), "2"))
Ordered(S) == LET f[T \in SUBSET S] == IF T = {} THEN << >> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o f[T \ {x}] IN f[S]
FreeOf(n, k) == LET used == {k[i] : i \in 1..Len(k)} IN
    LET f[i \in 0..n] == IF i = 0 THEN << >> ELSE IF i \in used THEN f[i-1] ELSE Append(f[i-1], i) IN f[n]
\* assemble the full vector from the free part and the prescribed part
Compose(n, p, free, uf, k, y) ==
    LET pos == [i \in 1..n |-> IF \E q \in 1..Len(k) : k[q] = i THEN <<0, CHOOSE q \in 1..Len(k) : k[q] = i>> ELSE <<1, CHOOSE q \in 1..Len(free) : free[q] = i>>]
    IN Mat(n, p, LAMBDA i, j : IF pos[i][1] = 0 THEN y[pos[i][2]][j] ELSE uf[pos[i][2]][j])
y2y(n, p, k, y) == Compose(n, p, << >>, << >>, k, y)
\* the minimiser (a stationary point, unique when the reduced system is regular); << >> if singular
\*   Q: n x n, A: sequence of m rows, k: 1-based indices, c: n x p, b: m x p, y: o x p
QuadSolution(Q, A, k, c, b, y, p) ==
    LET n == Len(Q)  m == Len(A)  S == Sym(Q, n)  free == FreeOf(n, k)  f == Len(free)
        rhs1 == Mat(f, p, LAMBDA i, j : RNeg(RAdd(c[free[i]][j], RSum([q \in 1..Len(k) |-> RMul(S[free[i]][k[q]], y[q][j])]))))
        rhs2 == Mat(m, p, LAMBDA i, j : RSub(b[i][j], RSum([q \in 1..Len(k) |-> RMul(A[i][k[q]], y[q][j])])))
        K == Mat(f + m, f + m, LAMBDA i, j :
                IF i <= f THEN (IF j <= f THEN S[free[i]][free[j]] ELSE A[j - f][free[i]])
                ELSE (IF j <= f THEN A[i - f][free[j]] ELSE "0"))
    IN IF f + m = 0 THEN y2y(n, p, k, y)
       ELSE LET X == SolveLin(K, rhs1 \o rhs2) IN IF X = << >> THEN << >> ELSE Compose(n, p, free, X, k, y)
\* the square system: rows of free unknowns hold, fixed unknowns take their values
DofSolution(M, k, b, y, p) ==
    LET n == Len(M)  free == FreeOf(n, k)  f == Len(free)
        rhs == Mat(f, p, LAMBDA i, j : RSub(b[free[i]][j], RSum([q \in 1..Len(k) |-> RMul(M[free[i]][k[q]], y[q][j])])))
    IN IF f = 0 THEN y2y(n, p, k, y)
       ELSE LET X == SolveLin(MSub2(M, free, free), rhs) IN IF X = << >> THEN << >> ELSE Compose(n, p, free, X, k, y)
\* objective (one column)
Objective(Q, c, u) == RAdd(RMul("1/2", RDot(u, MV(Q, u))), RDot(c, u))
\* u (n x p) with multipliers lam (m x p) is stationary and feasible: a certificate of the solution
Certifies(Q, A, k, c, b, y, u, lam) ==
    LET n == Len(Q)  m == Len(A)  p == Len(u[1])  S == Sym(Q, n)  free == FreeOf(n, k)
    IN /\ \A i \in 1..Len(free), j \in 1..p :
            REq(RAdd(RAdd(RDot(S[free[i]], MCol(u, j)), c[free[i]][j]), RSum([r \in 1..m |-> RMul(A[r][free[i]], lam[r][j])])), "0")
       /\ \A r \in 1..m, j \in 1..p : REq(RDot(A[r], MCol(u, j)), b[r][j])
       /\ \A q \in 1..Len(k), j \in 1..p : REq(u[k[q]][j], y[q][j])
=============================================================================
