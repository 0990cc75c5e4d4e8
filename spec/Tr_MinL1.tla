------------------------------ MODULE Tr_MinL1 ------------------------------
(* P23: recorded L1 minimisations against certified optima.                   *)
EXTENDS MinL1, Outcome
VARIABLES h, l, st, bad
Dn(M, n) == Dense(M.e, M.rows, n)
MinJ(e) ==
    LET i == e.in  n == i.n  o == e.out
        P == TLCEval([n |-> n, G |-> Dn(i.G, n), d |-> i.d, L |-> Dense(i.L.e, n, i.L.cols), A |-> Dn(i.A, n), k |-> [q \in 1..Len(i.k) |-> i.k[q] + 1], b |-> i.b, y |-> i.y, c |-> i.c])
        scale == RAdd("1", RMaxAbs(i.u))
    IN IF ~Certified(P, i.u, i.s, i.lam) THEN {"harness: the recorded certificate does not check"}
       ELSE IF ~IsArr(o, "f", <<n>>) THEN {"min_l1_with_fixed: shape of the solution"}
       ELSE LET u == o.a  best == Optimum(P, i.u, i.s)
                \* solver tolerance: 1e-9 relative to the data, loosened by three orders of magnitude
                tol == RMul(i.tol, RMul(scale, RAdd("1", RAdd(MMaxAbs(P.G), RAdd(MMaxAbs(P.A), RMaxAbs(P.c))))))
            IN Failing({<<"min_l1_with_fixed: constraints violated", Satisfies(P, u, tol)>>,
                        <<"min_l1_with_fixed: a better feasible vector exists", RLe(ObjLow(P, u), RAdd(best, RMul(tol, RAdd("1", RAbs(best)))))>>,
                        <<"min_l1_with_fixed: argument modified", i.same>>})
Jdg(s, e) == V(s, MinJ(e))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
