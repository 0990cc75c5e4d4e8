------------------------------- MODULE Quadtree ------------------------------
(* Quadtrees (d = 2) and octrees (d = 3) as prefix-closed sets of cells.      *)
(* A cell is <<lev, i>>: level (root 0) and integer position at that level.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Root0(d) == <<0, [k \in 1..d |-> 0]>>
Dim(c) == Len(c[2])
LoAt(c, k, M) == c[2][k] * Pow2(M - c[1])      \* on the grid of level M
Sz(c, M) == Pow2(M - c[1])
Bit(m, k) == (m \div Pow2(k - 1)) % 2
\* the m-th child, m = 0..2^d-1: x fastest
Child(c, m) == <<c[1] + 1, [k \in 1..Dim(c) |-> 2 * c[2][k] + Bit(m, k)]>>
Kids(c) == {Child(c, m) : m \in 0..(Pow2(Dim(c)) - 1)}
Up(c, n) == <<c[1] - n, [k \in 1..Dim(c) |-> c[2][k] \div Pow2(n)]>>
Parent(c) == Up(c, 1)
Below(a, b) == a[1] >= b[1] /\ Up(a, a[1] - b[1]) = b            \* a inside or equal b
Leaves(T) == {c \in T : Child(c, 0) \notin T}
\* side of a on which b lies with a common face of positive measure: 2k-1 towards smaller, 2k towards larger
\* coordinates of axis k; 0 when there is none
SideM(a, b, M) ==
    LET d == Dim(a)
        alo == [k \in 1..d |-> LoAt(a, k, M)]  blo == [k \in 1..d |-> LoAt(b, k, M)]
        sa == Sz(a, M)  sb == Sz(b, M)
        Ov(k) == alo[k] < blo[k] + sb /\ blo[k] < alo[k] + sa
        Hit == {k \in 1..d : (alo[k] + sa = blo[k] \/ blo[k] + sb = alo[k]) /\ \A j \in (1..d) \ {k} : Ov(j)}
    IN IF Hit = {} THEN 0
       ELSE LET k == CHOOSE k \in Hit : TRUE IN IF blo[k] + sb = alo[k] THEN 2 * k - 1 ELSE 2 * k
Side(a, b) == SideM(a, b, IF a[1] > b[1] THEN a[1] ELSE b[1])
Opp(s) == IF s = 0 THEN 0 ELSE IF s % 2 = 1 THEN s + 1 ELSE s - 1
Graded(T) == \A a, b \in Leaves(T) : a[1] > b[1] + 1 => Side(a, b) = 0
Split(T, c) == T \cup Kids(c)
\* splitting with repair: the coarse leaf neighbours of a split cell are split first
RECURSIVE GSplit(_, _)
GSplit(T, c) ==
    LET Bad == {b \in Leaves(T) : b[1] < c[1] /\ Side(c, b) # 0}
    IN IF Bad = {} THEN Split(T, c)
       ELSE GSplit(GSplit(T, CHOOSE b \in Bad : TRUE), c)
\* closed tree: parents present, all children or none
TreeLike(T, d) == /\ Root0(d) \in T
                  /\ \A c \in T : c = Root0(d) \/ (c[1] > 0 /\ Parent(c) \in T)
                  /\ \A c \in T : Kids(c) \cap T # {} => Kids(c) \subseteq T
\* a cell that was divided only because finer cells press against it
Pressed(T, c) == \E x \in T : x[1] = c[1] + 2 /\ ~Below(x, c) /\ Side(c, x) # 0
\* needed(c): the refinement criterion asks for a split of c
BuildOk(T, Needed(_), maxlev, graded) ==
    \A c \in T : LET inner == Child(c, 0) \in T IN
       /\ inner => c[1] < maxlev
       /\ (c[1] < maxlev /\ Needed(c)) => inner
       /\ (inner /\ ~Needed(c)) => graded /\ Pressed(T, c)
=============================================================================
