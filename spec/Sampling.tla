------------------------------ MODULE Sampling ------------------------------
(* Sampling elements by inverse transform and points inside an element.       *)
EXTENDS GeoMesh, FiniteSets, TLC
\* the element a draw u in [0, 1) selects: the first whose cumulative share exceeds u
Cum(w) == LET f[i \in 0..Len(w)] == IF i = 0 THEN "0" ELSE RAdd(f[i-1], w[i]) IN f
Pick(w, u) == LET c == TLCEval(Cum(w))  t == RMul(u, c[Len(w)]) IN
    CHOOSE i \in 1..Len(w) : RLt(t, c[i]) /\ \A j \in 1..(i-1) : ~RLt(t, c[j])
\* cells of equal measure: level k splits a triangle into 4^k similar ones, a segment into 2^k pieces
Two == "2"
RECURSIVE Cell(_, _)
Cell(u, k) ==
    IF k = 0 THEN << >>
    ELSE LET big == {j \in 1..Len(u) : RLe("1/2", u[j])} IN
         IF big # {} THEN LET j == CHOOSE x \in big : \A y \in big : x <= y
                          IN <<j>> \o Cell([i \in 1..Len(u) |-> IF i = j THEN RSub(RMul(Two, u[i]), "1") ELSE RMul(Two, u[i])], k - 1)
         ELSE <<0>> \o Cell([i \in 1..Len(u) |-> RSub("1", RMul(Two, u[i]))], k - 1)
Cells(n, k) == [1..k -> IF n = 3 THEN 0..3 ELSE 1..2]
CellCount(n, k) == IF n = 3 THEN 4 ^ k ELSE 2 ^ k
\* barycentric coordinates of a triangle from two draws, s the square root of the first
Bary(s, r2) == <<RSub("1", s), RMul(s, RSub("1", r2)), RMul(s, r2)>>
\* size of an element: length or double area
Size(V, f) == IF Len(f) = 2 THEN Root(RDist2(Pt(V, f[1]), Pt(V, f[2]))) ELSE DblA(V, f)
\* c hits out of n at probability p are within six standard deviations (and a little)
Plausible(c, n, p) == LET d == RSub(RNum(c), RMul(RNum(n), p)) IN
    RLe(RMul(d, d), RAdd("36", RMul("36", RMul(RNum(n), RMul(p, RSub("1", p))))))
=============================================================================
