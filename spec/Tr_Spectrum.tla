----------------------------- MODULE Tr_Spectrum -----------------------------
(* P34: recorded calls of grid_laplacian_eigenfunctions, column by column     *)
(* against the listing machine of Spectrum.tla.                               *)
EXTENDS Spectrum, Outcome
VARIABLES h, l, st, bad
Fn == "grid_laplacian_eigenfunctions"
Tol == "1/1000000000"
Rel == "1/1000000000000"
\* the mode an observed column shows among those that may come next
Shown(cands, col, gs, tab, cells) ==
    {N \in cands : \A i \in 1..Len(col) :
        RNear(col[i], Prod2(Len(gs), [d \in 1..Len(gs) |-> IF gs[d] = 1 THEN "1" ELSE tab[d][((N[d] * cells[i][d]) % (2 * (gs[d] - 1))) + 1]]), Tol, "0")}
ModesJ(s, e) ==
    LET i == e.in  gs == i.gs  dim == Len(gs)  n == Prod(gs)  o == e.out IN
    IF ~IsArr(o, "f", <<n, i.m>>) THEN V(s, {Fn \o ": one row per node and one column per mode"})
    ELSE LET tab == TLCEval([d \in 1..dim |-> TLCEval([q \in 1..(2 * gs[d]) |-> Factor(q - 1, 1, gs[d])])])
             cells == TLCEval([q \in 1..n |-> Coord(gs, q - 1)])
             col(k) == TLCEval([q \in 1..n |-> o.a[q][k]])
             f[k \in 0..i.m] ==
                IF k = 0 THEN [done |-> {}, front |-> {Origin(dim)}, at |-> 0]
                ELSE LET p == f[k-1] IN
                     IF p.at # 0 THEN p
                     ELSE LET hit == TLCEval(Shown(Least(p.front, i.l, Rel), col(k), gs, tab, cells)) IN
                          IF hit = {} THEN [p EXCEPT !.at = k]
                          ELSE LET N == CHOOSE N \in hit : TRUE  T == p.done \union {N} IN
                               [done |-> T, front |-> (p.front \ {N}) \union Opened(N, T), at |-> 0] IN
         V(s, Failing({<<Fn \o ": a column is not one of the lowest modes still missing", f[i.m].at = 0>>,
                       <<Fn \o ": argument modified", i.same>>}))
Jdg(s, e) == CASE e.op = "modes" -> ModesJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
