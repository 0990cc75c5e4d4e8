----------------------------- MODULE Tr_MarchSq -----------------------------
(* P20: recorded contours are contours of the recorded scalar grid.           *)
EXTENDS MarchSq, BigRat, Outcome
VARIABLES h, l, st, bad
\* e.in: S (nodes, first axis fastest), lo, hi (corners of the grid), nx, ny
Jdg2(e) ==
    LET nx == e.in.nx  ny == e.in.ny  S == e.in.S  lo == e.in.lo  hi == e.in.hi  r == e.out
        val(n) == S[n[1] + nx * n[2] + 1]
        pos == {n \in Nodes(nx, ny) : RSgn(val(n)) > 0}
        X == {g \in GEdges(nx, ny) : Straddle(pos, g)}
        \* where the linear interpolant vanishes, in the coordinates of the grid
        Zero(g) == LET a == val(End1(g))  b == val(End2(g))  t == RDiv(a, RSub(a, b))
                       u == IF g[3] = "x" THEN <<RAdd(RNum(g[1]), t), RNum(g[2])>> ELSE <<RNum(g[1]), RAdd(RNum(g[2]), t)>>
                   IN <<RAdd(lo[1], RMul(RDiv(u[1], RNum(nx - 1)), RSub(hi[1], lo[1]))), RAdd(lo[2], RMul(RDiv(u[2], RNum(ny - 1)), RSub(hi[2], lo[2])))>>
        tol == RMul("1/1000000000000", RAdd(RMax(RSub(hi[1], lo[1]), RSub(hi[2], lo[2])), RMax(RMax(RAbs(lo[1]), RAbs(lo[2])), RMax(RAbs(hi[1]), RAbs(hi[2])))))
    IN IF r.t # "seq" \/ Len(r.a) # 2 \/ r.a[1].t # "arr" \/ r.a[2].t # "arr" THEN {"shape of the result"}
       ELSE IF X = {} THEN Failing({<<"contour of a grid without sign change", r.a[1].sh[1] = 0 /\ r.a[2].sh[1] = 0>>})
       ELSE IF ~(IsArrK(r.a[1], "f", 2) /\ IsArrK(r.a[2], "i", 2) /\ r.a[1].sh[2] = 2 /\ r.a[2].sh[2] = 2) THEN {"shape of the result"}
       ELSE LET P == r.a[1].a  E == r.a[2].a
                Z == TLCEval([g \in X |-> Zero(g)])
                At1(p) == {g \in X : RVNear(p, Z[g], tol, "0")}
                m == TLCEval([i \in Idx(P) |-> At1(P[i])])
                good == \A i \in Idx(P) : Cardinality(m[i]) = 1
                the(i) == CHOOSE g \in m[i + 1] : TRUE
                inr == \A k \in Idx(E) : E[k][1] \in 0..(Len(P)-1) /\ E[k][2] \in 0..(Len(P)-1)
            IN IF ~good \/ ~inr \/ Cardinality({m[i] : i \in Idx(P)}) # Len(P) \/ Len(P) # Cardinality(X)
               THEN Failing({<<"contour vertex not on a grid edge with a sign change", good>>, <<"edge index out of range", inr>>,
                             <<"a grid edge with a sign change has no contour vertex or several", good => Cardinality({m[i] : i \in Idx(P)}) = Len(P) /\ Len(P) = Cardinality(X)>>})
               ELSE LET segs == {<<the(E[k][1]), the(E[k][2])>> : k \in Idx(E)} IN Failing({
                      <<"duplicate contour edges", Cardinality(segs) = Len(E)>>,
                      <<"contour does not separate the signs of every cell with the positive side to the right", AllCellsOk(nx, ny, pos, segs)>>,
                      <<"contour not closed or not consistently oriented inside the grid", ClosedInside(nx, ny, segs)>>,
                      <<"argument modified", e.in.same>>})
Jdg(s, e) == V(s, {"marching_squares: " \o b : b \in Jdg2(e)})
S0(hist) == <<>>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
