------------------------------- MODULE MinL1 --------------------------------
(* min  sum_g |G_g u|_2 + 1/2 u'Qu + c'u   s.t.  A u = b,  u[k] = y           *)
(* where G_g are the consecutive groups of d rows of G and Q = L L'.          *)
(* A point u with dual vectors s (one entry per row of G) and lam (one per    *)
(* row of A) is a certified optimum: the conditions below are the             *)
(* Karush-Kuhn-Tucker conditions of this convex problem, in exact arithmetic. *)
EXTENDS LinAlg
Group(v, g, d) == [i \in 1..d |-> v[(g - 1) * d + i]]
Groups(G, d) == 1..(Len(G) \div d)
Sq(v) == RDot(v, v)
\* the problem as a record [n, G, d, L (n x r), c, k, A, b, y]
QU(P, u) == MV(P.L, [j \in 1..Len(P.L[1]) |-> RDot(MCol(P.L, j), u)])
\* value of the objective, square roots from above/below within 2^-60
NormUp(v) == RAdd(RSqrt(Sq(v), 60), "1/1152921504606846976")
Smooth(P, u) == RAdd(RMul("1/2", RDot(u, QU(P, u))), RDot(P.c, u))
ObjUp(P, u) == LET r == MV(P.G, u) IN RAdd(Smooth(P, u), RSum([g \in 1..(Len(P.G) \div P.d) |-> NormUp(Group(r, g, P.d))]))
ObjLow(P, u) == LET r == MV(P.G, u) IN RAdd(Smooth(P, u), RSum([g \in 1..(Len(P.G) \div P.d) |-> RSqrt(Sq(Group(r, g, P.d)), 60)]))
Satisfies(P, u, tol) == /\ \A r \in 1..Len(P.A) : RNear(RDot(P.A[r], u), P.b[r], tol, "0")
                        /\ \A q \in 1..Len(P.k) : RNear(u[P.k[q]], P.y[q], tol, "0")
\* s is a subgradient of the norms at G u
Subgradient(P, u, s) ==
    LET r == MV(P.G, u) IN
    \A g \in Groups(P.G, P.d) :
        LET rg == Group(r, g, P.d)  sg == Group(s, g, P.d)  t == RDot(rg, sg)
        IN RLe(Sq(sg), "1") /\ RLe("0", t) /\ REq(RMul(t, t), Sq(rg))
Stationary(P, u, s, lam) ==
    LET fixed == {P.k[q] : q \in 1..Len(P.k)}  qu == QU(P, u) IN
    \A i \in (1..P.n) \ fixed :
        REq("0", RAdd(RAdd(qu[i], P.c[i]), RAdd(RDot(MCol(P.G, i), s), RSum([r \in 1..Len(P.A) |-> RMul(P.A[r][i], lam[r])]))))
Certified(P, u, s, lam) == Satisfies(P, u, "0") /\ Subgradient(P, u, s) /\ Stationary(P, u, s, lam)
\* the optimal value, exactly
Optimum(P, u, s) == RAdd(Smooth(P, u), RDot(s, MV(P.G, u)))
=============================================================================
