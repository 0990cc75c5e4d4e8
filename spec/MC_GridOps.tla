----------------------------- MODULE MC_GridOps -----------------------------
(* All small grids: a neighbourhood grown step by step is the metric ball and *)
(* never wraps; indices and staggered rows are bijections; hats partition     *)
(* unity and reproduce the point and products of coordinates.                 *)
EXTENDS GridOps, Json, SequencesExt
CONSTANTS MaxN, MaxOrder
VARIABLES gs, cell, diag, got, order
vv == <<gs, cell, diag, got, order>>
Init == /\ gs \in ([1..2 -> 1..MaxN] \cup [1..3 -> 1..(MaxN-1)]) /\ diag \in BOOLEAN
        /\ \E i \in 0..(Prod(gs)-1) : cell = Coord(gs, i)
        /\ got = {cell} /\ order = 0
Step == /\ order < MaxOrder /\ order' = order + 1
        /\ got' = got \cup UNION {Ball(gs, x, 1, diag) : x \in got}
        /\ UNCHANGED <<gs, cell, diag>>
Spec == Init /\ [][Step]_vv
IsBall == got = Ball(gs, cell, order, diag)
NoWrap == \A x \in got : InGrid(gs, x)
Lex == order = 0 => /\ \A i \in 0..(Prod(gs)-1) : Index(gs, Coord(gs, i)) = i
                    /\ \A k \in 1..Len(gs) : cell[k] + 1 < gs[k] => Index(gs, [cell EXCEPT ![k] = @ + 1]) = Index(gs, cell) + Stride(gs, k)
\* difference rows: one per pair of neighbours in the direction
Rows == order = 0 => \A d \in 1..Len(gs) : LET m == Prod(Less(gs, d)) IN
    {DiffRow(gs, d, r) : r \in 0..(m-1)} = {<<Index(gs, x), Index(gs, [x EXCEPT ![d] = @ + 1])>> : x \in {y \in Cells0(gs) : y[d] + 1 < gs[d]}}
       /\ Cardinality({DiffRow(gs, d, r) : r \in 0..(m-1)}) = m
\* interpolation at points of the cell above `cell'
Frac == {"0", "1/3", "1"}
Ups == {u \in [1..Len(gs) -> Frac] : TRUE}
Partition == (order = 0 /\ ~diag /\ \A k \in 1..Len(gs) : cell[k] + 1 < gs[k]) =>
    \A f \in Ups : LET u == [k \in 1..Len(gs) |-> RAdd(RNum(cell[k]), f[k])]
                       S == {[k \in 1..Len(gs) |-> cell[k] + b[k]] : b \in [1..Len(gs) -> {0, 1}]}
                       q == SetToSeq(S)
                       sum(g(_)) == RSum([i \in 1..Cardinality(S) |-> RMul(Hat(q[i], u), g(q[i]))])
                   IN /\ REq(sum(LAMBDA c : "1"), "1")
                      /\ \A k \in 1..Len(gs) : REq(sum(LAMBDA c : RNum(c[k])), u[k])
                      /\ REq(sum(LAMBDA c : RMul(RNum(c[1]), RNum(c[2]))), RMul(u[1], u[2]))
Emit == (order = 0 /\ ~diag /\ cell = [k \in 1..Len(gs) |-> 0]) => PrintT("GEN " \o ToJson(gs))
=============================================================================
