---------------------------- MODULE Tr_QuadSolve ----------------------------
(* P22: recorded constrained solves, one-shot and through solver objects.     *)
EXTENDS QuadSolve, Outcome
VARIABLES h, l, st, bad
Tol == "1/100000000"
\* state: object name -> the problem it was made with
Prob(i) == [kind |-> i.kind, Q |-> Dense(i.Q, i.n, i.n), A |-> Dense(i.A, i.m, i.n), k |-> [q \in 1..Len(i.k) |-> i.k[q] + 1]]
\* a right-hand side given as nothing, a number, a vector or a matrix, as a matrix with p columns
Full(x, rows, p) ==
    CASE x.f = "none" -> Zeros(rows, p)
      [] x.f = "s" -> Mat(rows, p, LAMBDA i, j : x.v)
      [] x.f = "v" -> Mat(rows, p, LAMBDA i, j : x.v[i])
      [] x.f = "m" -> x.v
Cols(i) == LET w == {Len(i[f].v[1]) : f \in {g \in {"c", "b", "y"} : i[g].f = "m"}} IN IF w = {} THEN 0 ELSE SetMax(w)
AsMat(o, n, p) == IF p = 0 THEN [i \in 1..n |-> <<o.a[i]>>] ELSE o.a
Answer(P, i) ==
    LET n == Len(P.Q)  p0 == Cols(i)  p == Max2(1, p0)
        c == Full(i.c, n, p)  b == Full(i.b, IF P.kind = "dof" THEN n ELSE Len(P.A), p)  y == Full(i.y, Len(P.k), p)
        wit == "u" \in DOMAIN i
        \* a recorded certificate counts only if it checks exactly
        sol == IF wit THEN (IF P.kind = "quad" /\ Certifies(P.Q, P.A, P.k, c, b, y, i.u, i.lam) THEN i.u ELSE << >>)
               ELSE IF P.kind = "quad" THEN QuadSolution(P.Q, P.A, P.k, c, b, y, p) ELSE DofSolution(P.Q, P.k, b, y, p)
    IN [n |-> n, p |-> p, p0 |-> p0, sol |-> sol, y |-> y]
SolveJ(P, e) ==
    LET x == Answer(P, e.in)  n == x.n  o == e.out IN
    IF x.sol = << >> THEN {"harness: the recorded problem has no unique solution"}
    ELSE IF ~IsArr(o, "f", IF x.p0 = 0 THEN <<n>> ELSE <<n, x.p>>) THEN {"solve: shape of the solution"}
    ELSE LET u == AsMat(o, n, x.p0)  tol == RMul(Tol, RAdd("1", MMaxAbs(x.sol))) IN
         Failing({<<"solve: not the constrained minimiser", \A i \in 1..n, j \in 1..x.p : RNear(u[i][j], x.sol[i][j], tol, "0")>>,
                  <<"solve: prescribed values not taken exactly", \A q \in 1..Len(P.k), j \in 1..x.p : REq(u[P.k[q]][j], x.y[q][j])>>,
                  <<"solve: argument modified", e.in.same>>})
Jdg(s, e) ==
    CASE e.op = "make" -> [bad |-> IF e.in.same THEN {} ELSE {"make: argument modified"}, st |-> [o \in DOMAIN s \cup {e.in.obj} |-> IF o = e.in.obj THEN Prob(e.in) ELSE s[o]], stop |-> FALSE]
      [] e.op = "scribble" -> Ok(s)
      [] e.op = "solve" -> V(s, SolveJ(s[e.in.obj], e))
      [] e.op = "oneshot" -> V(s, SolveJ(TLCEval(Prob(e.in)), e))
S0(hist) == [o \in {} |-> 0]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
