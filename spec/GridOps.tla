------------------------------- MODULE GridOps ------------------------------
(* Regular grids of nodes or cells gs = <<n1,n2(,n3)>>, first axis fastest:   *)
(* index arithmetic, neighbourhoods, one-sided differences, multilinear       *)
(* interpolation.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
Prod(gs) == LET f[i \in 0..Len(gs)] == IF i = 0 THEN 1 ELSE f[i-1] * gs[i] IN f[Len(gs)]
Stride(gs, k) == LET f[i \in 0..Len(gs)] == IF i = 0 THEN 1 ELSE f[i-1] * gs[i] IN f[k - 1]
Coord(gs, i) == [k \in 1..Len(gs) |-> (i \div Stride(gs, k)) % gs[k]]
Index(gs, c) == LET f[k \in 0..Len(gs)] == IF k = 0 THEN 0 ELSE f[k-1] + Stride(gs, k) * c[k] IN f[Len(gs)]
InGrid(gs, c) == \A k \in 1..Len(gs) : c[k] \in 0..(gs[k]-1)
Abs(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + s[i] IN f[Len(s)]
MaxOf(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE IF f[i-1] > s[i] THEN f[i-1] ELSE s[i] IN f[Len(s)]
Dist(a, b, diag) == LET d == [k \in 1..Len(a) |-> Abs(a[k] - b[k])] IN IF diag THEN MaxOf(d) ELSE SumSeq(d)
Cells0(gs) == {Coord(gs, i) : i \in 0..(Prod(gs)-1)}
Ball(gs, c, r, diag) == {x \in Cells0(gs) : Dist(x, c, diag) <= r}
BallSize(dim, r, diag) == Cardinality({x \in [1..dim -> (-r)..r] : Dist(x, [k \in 1..dim |-> 0], diag) <= r})
Less(gs, d) == [gs EXCEPT ![d] = gs[d] - 1]      \* staggered grid
\* one-sided difference in direction d: <<row, column, value>>
DiffRow(gs, d, r) == LET c == Coord(Less(gs, d), r) i == Index(gs, c) IN <<i, i + Stride(gs, d)>>
\* hat function of node c at point u (grid coordinates)
Hat1(t) == RMax("0", RSub("1", RAbs(t)))
Hat(c, u) == LET f[k \in 0..Len(c)] == IF k = 0 THEN "1" ELSE RMul(f[k-1], Hat1(RSub(u[k], RNum(c[k])))) IN f[Len(c)]
\* nodes whose hat may be non-zero at u
Near1(n, t) == LET i == RToInt(RFloor(t), 0) IN {i, i + 1} \cap (0..(n-1))
=============================================================================
