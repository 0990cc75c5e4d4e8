------------------------------- MODULE Winding ------------------------------
(* Integer winding number of closed oriented edge sets (2D, rational points)  *)
(* by signed crossings of a half-line, by quadrant changes (the discrete form *)
(* of summing angles), and the even-odd rule the library's polygon distance   *)
(* uses.  MC_Winding checks that they agree off the curve.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
Side(p, a, b) == RSgn(RSub(RMul(RSub(b[1], a[1]), RSub(p[2], a[2])), RMul(RSub(b[2], a[2]), RSub(p[1], a[1]))))   \* > 0: p left of a->b
OnSeg(p, a, b) == Side(p, a, b) = 0 /\ RLe(RMin(a[1], b[1]), p[1]) /\ RLe(p[1], RMax(a[1], b[1])) /\ RLe(RMin(a[2], b[2]), p[2]) /\ RLe(p[2], RMax(a[2], b[2]))
\* crossings of the half-line from p in direction +x; each edge is closed at its lower end
CrossE(p, a, b) == IF RLe(a[2], p[2]) /\ RLt(p[2], b[2]) THEN (IF Side(p, a, b) > 0 THEN 1 ELSE 0)
                   ELSE IF RLe(b[2], p[2]) /\ RLt(p[2], a[2]) THEN (IF Side(p, a, b) < 0 THEN -1 ELSE 0) ELSE 0
SumOver(n, f(_)) == LET g[i \in 0..n] == IF i = 0 THEN 0 ELSE g[i-1] + f(i) IN g[n]
\* es: sequence of <<from, to>>
WindE(p, es) == SumOver(Len(es), LAMBDA i : CrossE(p, es[i][1], es[i][2]))
\* the angle an edge subtends at p, in (-pi, pi]; a curve that need not close has the sum of them over 2 pi as its winding number
AngleE(p, a, b) == LET u == RVSub(a, p) v == RVSub(b, p)
                   IN IF a = b THEN "0" ELSE RAtan2(RSub(RMul(u[1], v[2]), RMul(u[2], v[1])), RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), 70)
WindA(p, es) == RDiv(RSum([i \in 1..Len(es) |-> AngleE(p, es[i][1], es[i][2])]), RMul("2", RPi(80)))
\* a closed oriented surface: signed crossings of a ray in general position
GenericRay == <<"371/1000", "-533/997", "761/1009">>
Tri3(p, t) ==
    LET e1 == RVSub(t[2], t[1])  e2 == RVSub(t[3], t[1])  o == RVSub(p, t[1])
        k == RCross(GenericRay, e2)  det == RDot(k, e1)  sg == RSgn(det)
    IN IF sg = 0 THEN 0 ELSE
       LET u == RDot(o, k)  q == RCross(o, e1)  v == RDot(GenericRay, q)  w == RDot(e2, q)
           up(x) == sg * RSgn(x) > 0
       IN IF up(u) /\ up(v) /\ up(RSub(det, RAdd(u, v))) /\ up(w) THEN -sg ELSE 0
Wind3(p, ts) == SumOver(Len(ts), LAMBDA i : Tri3(p, ts[i]))
Turn(p) == <<RNeg(p[2]), p[1]>>                              \* quarter turn
TurnEs(es) == [i \in 1..Len(es) |-> <<Turn(es[i][1]), Turn(es[i][2])>>]
Quad(p, a) == LET x == RSgn(RSub(a[1], p[1]))  y == RSgn(RSub(a[2], p[2])) IN
              IF x > 0 /\ y >= 0 THEN 0 ELSE IF x <= 0 /\ y > 0 THEN 1 ELSE IF x < 0 THEN 2 ELSE 3
QuadE(p, a, b) == LET d == (Quad(p, b) - Quad(p, a) + 4) % 4 IN CASE d = 0 -> 0 [] d = 1 -> 1 [] d = 3 -> -1 [] d = 2 -> 2 * Side(p, a, b)
WindQ4(p, es) == SumOver(Len(es), LAMBDA i : QuadE(p, es[i][1], es[i][2]))    \* four times the winding number
\* the library's even-odd rule over the cyclic vertex list X
FlipE(p, vi, vj) == LET c1 == RLe(vi[2], p[2])  c2 == RLt(p[2], vj[2])
                        c3 == RLt(RMul(RSub(vj[2], vi[2]), RSub(p[1], vi[1])), RMul(RSub(vj[1], vi[1]), RSub(p[2], vi[2])))
                    IN IF (c1 /\ c2 /\ c3) \/ (~c1 /\ ~c2 /\ ~c3) THEN 1 ELSE 0
Loop(X) == [i \in 1..Len(X) |-> <<X[i], X[(i % Len(X)) + 1]>>]
Odd(p, X) == SumOver(Len(X), LAMBDA i : FlipE(p, X[(i % Len(X)) + 1], X[i])) % 2 = 1
\* simple: no two edges share a point besides common ends of neighbours
SegMeet(a, b, c, d) == \/ Side(a, c, d) * Side(b, c, d) < 0 /\ Side(c, a, b) * Side(d, a, b) < 0
                       \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)
Simple(X) == LET n == Len(X) es == Loop(X) IN
    /\ \A i, j \in 1..n : i < j => X[i] # X[j]
    /\ \A i \in 1..n, j \in 1..n : (i < j) =>
         IF j = i + 1 \/ (i = 1 /\ j = n)
         THEN n > 2 /\ (LET a == IF j = i + 1 THEN X[i] ELSE X[n]  b == IF j = i + 1 THEN X[j] ELSE X[1]  c == IF j = i + 1 THEN X[(j % n) + 1] ELSE X[2]
                        IN ~OnSeg(a, b, c) /\ ~OnSeg(c, a, b))
         ELSE ~SegMeet(es[i][1], es[i][2], es[j][1], es[j][2])
=============================================================================
