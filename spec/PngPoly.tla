------------------------------ MODULE PngPoly ------------------------------
(* Contours of a picture.  A picture is rows of pixels from the top, a pixel  *)
(* a sequence of channels in 0..top: gray, gray and alpha, colors, or colors  *)
(* and alpha.  Contours live in the plane with x to the right and y up, pixel *)
(* centers on the integers, the lower left one at the origin; they are where  *)
(* the brightness interpolated along rows and columns is half of its maximum. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
Luma == <<"425/2000", "3577/5000", "721/10000">>
\* seen on white; 0 (black) to 1 (white)
Bright(px, top) ==
    LET ch(i) == RDiv(RNum(px[i]), RNum(top))
        gray == IF Len(px) <= 2 THEN ch(1) ELSE RDot(Luma, <<ch(1), ch(2), ch(3)>>)
        alpha == IF Len(px) \in {2, 4} THEN ch(Len(px)) ELSE "1"
    IN RAdd(RMul(alpha, gray), RSub("1", alpha))
Wide(I) == Len(I.px[1])
High(I) == Len(I.px)
\* brightness of all pixels, [x + 1][y + 1]
Field(I) == TLCEval([x \in 1..Wide(I) |-> TLCEval([y \in 1..High(I) |-> Bright(I.px[High(I) + 1 - y][x], I.top)])])
MaxOf(G) == LET r == [x \in 1..Len(G) |-> LET f[y \in 1..Len(G[x])] == IF y = 1 THEN G[x][1] ELSE RMax(f[y-1], G[x][y]) IN f[Len(G[x])]]
                f[x \in 1..Len(G)] == IF x = 1 THEN r[1] ELSE RMax(f[x-1], r[x]) IN f[Len(G)]
Level(G) == RMul("1/2", MaxOf(G))
\* an edge <<x, y, d>> joins pixel (x, y) to the next one to the right (d = 1) or above (d = 2)
Far(e) == IF e[3] = 1 THEN <<e[1] + 1, e[2]>> ELSE <<e[1], e[2] + 1>>
Val(G, q) == G[q[1] + 1][q[2] + 1]
EdgesOf(G) == {e \in (0..(Len(G) - 1)) \X (0..(Len(G[1]) - 1)) \X {1, 2} : Far(e)[1] < Len(G) /\ Far(e)[2] < Len(G[1])}
Crossed(G, L) == {e \in EdgesOf(G) : RLt(Val(G, <<e[1], e[2]>>), L) # RLt(Val(G, Far(e)), L)}
Spot(G, L, e) == LET a == Val(G, <<e[1], e[2]>>)  b == Val(G, Far(e))  t == RDiv(RSub(L, a), RSub(b, a)) IN
    IF e[3] = 1 THEN <<RAdd(RNum(e[1]), t), RNum(e[2])>> ELSE <<RNum(e[1]), RAdd(RNum(e[2]), t)>>
CellsOf(G, e) == {c \in {<<e[1], e[2]>>, IF e[3] = 1 THEN <<e[1], e[2] - 1>> ELSE <<e[1] - 1, e[2]>>} :
                    c[1] \in 0..(Len(G) - 2) /\ c[2] \in 0..(Len(G[1]) - 2)}
Ends(e) == {<<e[1], e[2]>>, Far(e)}
\* in one cell; where four edges of a cell are crossed, a contour cuts off a corner
Linked(G, C, e, f) == e # f /\ \E c \in CellsOf(G, e) \cap CellsOf(G, f) :
    Cardinality({g \in C : c \in CellsOf(G, g)}) = 4 => Ends(e) \cap Ends(f) # {}
Border(G, e) == Cardinality(CellsOf(G, e)) = 1
\* ---- which edges the vertices of the polylines lie on ( << >>: none)
Locate(G, L, C, v) == LET s == {e \in C : RVNear(v, Spot(G, L, e), "1/1000000", "0")} IN IF Cardinality(s) = 1 THEN CHOOSE e \in s : TRUE ELSE << >>
Closed(w) == Len(w) > 1 /\ w[1] = w[Len(w)]
Walk(w) == IF Closed(w) THEN SubSeq(w, 2, Len(w)) ELSE w
WrongContours(I, polys) ==
    LET G == Field(I)  L == TLCEval(Level(G))  C == TLCEval(Crossed(G, L))
        W == TLCEval([k \in 1..Len(polys) |-> TLCEval([j \in 1..Len(polys[k]) |-> Locate(G, L, C, polys[k][j])])])
        hit(e) == {<<k, j>> \in UNION {{<<k, j>> : j \in 1..Len(Walk(W[k]))} : k \in 1..Len(W)} : Walk(W[k])[j] = e}
    IN IF \E k \in 1..Len(W) : \E j \in 1..Len(W[k]) : W[k][j] = << >> THEN {"a vertex is not where the brightness crosses half its maximum"}
       ELSE (IF \A e \in C : Cardinality(hit(e)) = 1 THEN {} ELSE IF \E e \in C : hit(e) = {} THEN {"a crossing has no contour"} ELSE {"a crossing has several contours"})
            \cup (IF \A k \in 1..Len(W) : \A j \in 1..(Len(W[k]) - 1) : Linked(G, C, W[k][j], W[k][j + 1]) THEN {} ELSE {"contours jump or cross"})
            \cup (IF \A k \in 1..Len(W) : Closed(W[k]) \/ (Border(G, W[k][1]) /\ Border(G, W[k][Len(W[k])])) THEN {} ELSE {"a contour ends inside the picture"})
\* ---- some contours, traced edge by edge
RECURSIVE Trace1(_, _, _, _)
Trace1(G, C, w, left) ==
    LET e == w[Len(w)]  prev == IF Len(w) = 1 THEN {} ELSE CellsOf(G, e) \cap CellsOf(G, w[Len(w) - 1])
        nxt == {f \in left : Linked(G, C, e, f) /\ \E c \in CellsOf(G, e) \cap CellsOf(G, f) : c \notin prev} IN
    IF nxt = {} THEN w ELSE LET f == CHOOSE f \in nxt : TRUE IN Trace1(G, C, Append(w, f), left \ {f})
RECURSIVE TraceAll(_, _, _)
TraceAll(G, C, left) ==
    IF left = {} THEN << >>
    ELSE LET b == {e \in left : Border(G, e)}
             e == CHOOSE e \in (IF b = {} THEN left ELSE b) : TRUE
             w == Trace1(G, C, <<e>>, left \ {e})
             x == IF b = {} THEN Append(w, e) ELSE w
         IN <<x>> \o TraceAll(G, C, left \ {w[j] : j \in 1..Len(w)})
Contours(I) == LET G == Field(I)  L == TLCEval(Level(G))  C == TLCEval(Crossed(G, L))  W == TLCEval(TraceAll(G, C, C)) IN [k \in 1..Len(W) |-> [j \in 1..Len(W[k]) |-> Spot(G, L, W[k][j])]]
=============================================================================
