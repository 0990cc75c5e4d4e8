----------------------------- MODULE Tr_GridOps -----------------------------
(* P21: recorded grid operators and neighbour lists.                          *)
EXTENDS GridOps, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000000000"
\* entries of the difference in direction d, rows shifted by r0, as a set of <<row, column, sign>>
DiffSet(gs, d, r0) == UNION {LET ij == DiffRow(gs, d, r) IN {<<r0 + r, ij[1], -1>>, <<r0 + r, ij[2], 1>>} : r \in 0..(Prod(Less(gs, d)) - 1)}
\* recorded entries carry the right value: sign / h
Signs(E, hd(_)) == {<<x[1], x[2], IF RNear(x[3], RDiv("1", hd(x[1])), "0", Tol) THEN 1 ELSE IF RNear(x[3], RDiv("-1", hd(x[1])), "0", Tol) THEN -1 ELSE 0>> : x \in Range(E)}
PartialJ(e) ==
    LET gs == e.in.gs  d == e.in.d + 1  m == Prod(Less(gs, d)) IN
    IF ~IsSp(e.out, <<m, Prod(gs)>>) THEN {"fd_partial_derivative: not one row per staggered node"}
    ELSE Failing({<<"fd_partial_derivative: not the difference quotient along the requested direction", Signs(e.out.e, LAMBDA r : e.in.h[d]) = DiffSet(gs, d, 0)>>,
                  <<"fd_partial_derivative: argument modified", e.in.same>>})
GradJ(e) ==
    LET gs == e.in.gs  dim == Len(gs)
        off[d \in 1..(dim+1)] == IF d = 1 THEN 0 ELSE off[d-1] + Prod(Less(gs, d-1))
        dirOf(r) == CHOOSE d \in 1..dim : off[d] <= r /\ r < off[d+1]
    IN IF ~IsSp(e.out, <<off[dim+1], Prod(gs)>>) THEN {"fd_grad: not one row per staggered node and direction"}
       ELSE Failing({<<"fd_grad: not the stacked difference quotients", Signs(e.out.e, LAMBDA r : e.in.h[dirOf(r)]) = UNION {DiffSet(gs, d, off[d]) : d \in 1..dim}>>,
                     <<"fd_grad: argument modified", e.in.same>>})
InterpJ(e) ==
    LET gs == e.in.gs  dim == Len(gs)  P == e.in.P  np == Len(P)  hh == e.in.h  c0 == e.in.corner
        u == TLCEval([r \in 1..np |-> [k \in 1..dim |-> RDiv(RSub(P[r][k], c0[k]), hh[k])]])
        \* rounding of the point in units of the spacing
        cond == LET f[k \in 0..dim] == IF k = 0 THEN "1" ELSE RMax(f[k-1], RDiv(RAdd(RAbs(c0[k]), RMul(RNum(gs[k]), hh[k])), hh[k])) IN f[dim]
        tol == RMul("1/100000000000000", RAdd("10", cond))
        hat(r, j) == Hat(Coord(gs, j), u[r])
        near(r) == {Index(gs, c) : c \in {x \in [1..dim -> -1..MaxOf(gs)] : \A k \in 1..dim : x[k] \in Near1(gs[k], u[r][k])}}
        ent == Range(e.out.e)
        has(r, j) == \E x \in ent : x[1] = r - 1 /\ x[2] = j
    IN IF ~IsSp(e.out, <<np, Prod(gs)>>) THEN {"fd_interpolate: shape of the result"}
       ELSE Failing({
         <<"fd_interpolate: not the multilinear weights of the cell", \A x \in ent : RNear(x[3], hat(x[1] + 1, x[2]), tol, "0")>>,
         <<"fd_interpolate: a node of the cell has no weight", \A r \in 1..np : \A j \in near(r) : RLe(hat(r, j), tol) \/ has(r, j)>>,
         <<"fd_interpolate: negative weight", \A x \in ent : RLe(RNeg(tol), x[3])>>,
         <<"fd_interpolate: argument modified", e.in.same>>})
NeighJ(e) ==
    LET gs == e.in.gs  n == Prod(gs)  r == e.in.order  o == e.out IN
    IF ~IsArrK(o, "i", 2) \/ o.sh[2] # n THEN {"grid_neighbors: not one column per cell"}
    ELSE LET N == o.a  rows == Idx(N)
             col(i) == {N[k][i + 1] : k \in rows}
             want(i) == {Index(gs, x) : x \in Ball(gs, Coord(gs, i), r, e.in.diag)}
             \* a cell is its own neighbour of order two and more on the way there and back: left open
             self(i) == IF e.in.self THEN {} ELSE {i}
         IN Failing({
           <<"grid_neighbors: not the cells within the requested order", \A i \in 0..(n-1) : {x \in col(i) : x >= 0} \ self(i) = want(i) \ self(i)>>,
           <<"grid_neighbors: a cell listed as its own neighbour", (r = 1 /\ ~e.in.self) => \A i \in 0..(n-1) : i \notin col(i)>>,
           <<"grid_neighbors: repeated neighbour", (e.in.unique \/ r = 1) => \A i \in 0..(n-1) : \A j, k \in rows : (j < k /\ N[j][i+1] >= 0) => N[j][i+1] # N[k][i+1]>>,
           <<"grid_neighbors: out-of-grid neighbours not marked", \A i \in 0..(n-1) : \A x \in col(i) : x < n>>,
           <<"grid_neighbors: number of neighbours", (e.in.unique \/ r = 1) => Len(N) \in {BallSize(Len(gs), r, e.in.diag) - s : s \in IF e.in.self THEN {0} ELSE IF r = 1 THEN {1} ELSE {0, 1}}>>,
           <<"grid_neighbors: argument modified", e.in.same>>})
Jdg(s, e) ==
    V(s, CASE e.op = "partial" -> PartialJ(e) [] e.op = "grad" -> GradJ(e) [] e.op = "interp" -> InterpJ(e) [] e.op = "neigh" -> NeighJ(e))
S0(hist) == <<>>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
