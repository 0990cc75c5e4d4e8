------------------------------- MODULE MarchSq ------------------------------
(* Contours of a sign pattern on an nx x ny grid of nodes.  pos = set of      *)
(* nodes <<i,j>> (from 0) with positive value.  A contour vertex is a grid    *)
(* edge <<i,j,"x">> (towards i+1) or <<i,j,"y">> whose ends differ.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nodes(nx, ny) == (0..(nx-1)) \X (0..(ny-1))
Cells(nx, ny) == (0..(nx-2)) \X (0..(ny-2))
GEdges(nx, ny) == {<<i, j, "x">> : i \in 0..(nx-2), j \in 0..(ny-1)} \cup {<<i, j, "y">> : i \in 0..(nx-1), j \in 0..(ny-2)}
End1(e) == <<e[1], e[2]>>
End2(e) == IF e[3] = "x" THEN <<e[1] + 1, e[2]>> ELSE <<e[1], e[2] + 1>>
Straddle(pos, e) == (End1(e) \in pos) # (End2(e) \in pos)
\* corners and sides of a cell, counter-clockwise; side k joins corner k and corner k+1 (mod 4)
Corner(c, k) == CASE k = 0 -> <<c[1], c[2]>> [] k = 1 -> <<c[1] + 1, c[2]>> [] k = 2 -> <<c[1] + 1, c[2] + 1>> [] k = 3 -> <<c[1], c[2] + 1>>
SideE(c, k) == CASE k = 0 -> <<c[1], c[2], "x">> [] k = 1 -> <<c[1] + 1, c[2], "y">> [] k = 2 -> <<c[1], c[2] + 1, "x">> [] k = 3 -> <<c[1], c[2], "y">>
SideOf(c, e) == CHOOSE k \in 0..3 : SideE(c, k) = e
SidesOf(c) == {SideE(c, k) : k \in 0..3}
Crossed(pos, c) == {k \in 0..3 : Straddle(pos, SideE(c, k))}
\* corners to the right of a segment from side s to side t of a cell
RightOf(s, t) == {(s + m) % 4 : m \in 1..(IF t > s THEN t - s ELSE t - s + 4)}
\* a set of segments <<s,t>> separates the signs of a cell, positive to the right
CellOk(pos, c, segs) ==
    LET sg(k) == Corner(c, k) \in pos IN
    /\ {x[1] : x \in segs} \cup {x[2] : x \in segs} = Crossed(pos, c) /\ 2 * Cardinality(segs) = Cardinality(Crossed(pos, c))
    /\ \A x \in segs : LET R == RightOf(x[1], x[2])  L == (0..3) \ R IN
         IF Cardinality(segs) = 1 THEN (\A k \in R : sg(k)) /\ (\A k \in L : ~sg(k))
         ELSE \* saddle: each segment cuts off one corner
              /\ Cardinality(R) \in {1, 3}
              /\ (Cardinality(R) = 1 => \A k \in R : sg(k)) /\ (Cardinality(L) = 1 => \A k \in L : ~sg(k))
\* segments of the whole grid as pairs of grid edges; each belongs to the one cell that has both as sides
CellOf(nx, ny, seg) == {c \in Cells(nx, ny) : seg[1] \in SidesOf(c) /\ seg[2] \in SidesOf(c)}
SegsIn(c, segs) == {<<SideOf(c, x[1]), SideOf(c, x[2])>> : x \in {y \in segs : y[1] \in SidesOf(c) /\ y[2] \in SidesOf(c)}}
AllCellsOk(nx, ny, pos, segs) == /\ \A x \in segs : x[1] # x[2] /\ CellOf(nx, ny, x) # {}
                                 /\ \A c \in Cells(nx, ny) : CellOk(pos, c, SegsIn(c, segs))
Border(nx, ny, e) == (e[3] = "x" /\ e[2] \in {0, ny - 1}) \/ (e[3] = "y" /\ e[1] \in {0, nx - 1})
ClosedInside(nx, ny, segs) == \A e \in {x[1] : x \in segs} \cup {x[2] : x \in segs} :
    ~Border(nx, ny, e) => Cardinality({x \in segs : x[1] = e}) = 1 /\ Cardinality({x \in segs : x[2] = e}) = 1
\* the library's case table: corner bits a=1, b=2, c=4, d=8; complemented cases are flipped
Bit(pos, c, k) == IF Corner(c, k) \in pos THEN 2^k ELSE 0
Code(pos, c) == Bit(pos, c, 0) + Bit(pos, c, 1) + Bit(pos, c, 2) + Bit(pos, c, 3)
Base(k) == CASE k = 0 -> {} [] k = 1 -> {<<3, 0>>} [] k = 2 -> {<<0, 1>>} [] k = 3 -> {<<3, 1>>} [] k = 4 -> {<<1, 2>>}
             [] k = 5 -> {<<3, 0>>, <<1, 2>>} [] k = 6 -> {<<0, 2>>} [] k = 7 -> {<<3, 2>>}
Rev(S) == {<<x[2], x[1]>> : x \in S}
Table(k) == IF k > 7 THEN Rev(Base(15 - k)) ELSE Base(k)
=============================================================================
