-------------------------------- MODULE Rays --------------------------------
(* Exact intersections of a half-line o + t d, t >= 0, with boxes, triangles  *)
(* and segments (rational coordinates), and the candidate-plane algorithm for *)
(* boxes that the library uses.  MC_Rays checks them against each other.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
Along(o, d, t) == RVAdd(o, RVScale(t, d))
\* --- boxes: interval of parameters inside all slabs; "none" or the entry parameter
SlabIn(o, d, lo, hi)  == IF RSgn(d) = 0 THEN IF RLe(lo, o) /\ RLe(o, hi) THEN "0" ELSE "none" ELSE RMin(RDiv(RSub(lo, o), d), RDiv(RSub(hi, o), d))
SlabOut(o, d, lo, hi) == RMax(RDiv(RSub(lo, o), d), RDiv(RSub(hi, o), d))
BoxEntry(o, d, lo, hi) ==
    LET n == Len(o)
        ein[i \in 0..n] == IF i = 0 THEN "0" ELSE LET a == ein[i-1]  b == SlabIn(o[i], d[i], lo[i], hi[i]) IN IF a = "none" \/ b = "none" THEN "none" ELSE RMax(a, b)
        out(i) == RSgn(d[i]) = 0 \/ RLe(ein[n], SlabOut(o[i], d[i], lo[i], hi[i]))
    IN IF ein[n] = "none" THEN "none" ELSE IF \A i \in 1..n : out(i) THEN ein[n] ELSE "none"
InBox(p, lo, hi) == \A i \in 1..Len(p) : RLe(lo[i], p[i]) /\ RLe(p[i], hi[i])
\* the library's algorithm: last candidate plane, then containment in the other slabs
BoxCand(o, d, lo, hi) ==
    LET n == Len(o)
        side(i) == IF RLt(o[i], lo[i]) THEN 1 ELSE IF RLt(hi[i], o[i]) THEN 0 ELSE 2
        plane(i) == IF side(i) = 1 THEN lo[i] ELSE hi[i]
        maxT(i) == IF side(i) # 2 /\ RSgn(d[i]) # 0 THEN RDiv(RSub(plane(i), o[i]), d[i]) ELSE "-1"
        w[i \in 1..n] == IF i = 1 THEN 1 ELSE IF RLt(maxT(w[i-1]), maxT(i)) THEN i ELSE w[i-1]
        p == Along(o, d, maxT(w[n]))
    IN IF \A i \in 1..n : side(i) = 2 THEN "0"
       ELSE IF RSgn(maxT(w[n])) < 0 THEN "none"
       ELSE IF \A i \in 1..n : i = w[n] \/ (RLe(lo[i], p[i]) /\ RLe(p[i], hi[i])) THEN maxT(w[n]) ELSE "none"
\* --- triangles in 3D: solution <<t, u, v>> of o + t d = a + u (b-a) + v (c-a); <<>> if the line is parallel to the plane
TriDet(d, a, b, c) == RDot(RVSub(b, a), RCross(d, RVSub(c, a)))
TriSolve(o, d, a, b, c) ==
    LET e1 == RVSub(b, a)  e2 == RVSub(c, a)  pv == RCross(d, e2)  det == RDot(e1, pv)
        tv == RVSub(o, a)  qv == RCross(tv, e1)
    IN IF RSgn(det) = 0 THEN <<>> ELSE <<RDiv(RDot(e2, qv), det), RDiv(RDot(tv, pv), det), RDiv(RDot(d, qv), det)>>
\* --- segments in 2D: solution <<t, s>> of o + t d = a + s (b-a); <<>> if parallel
X2(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
SegSolve(o, d, a, b) == LET e == RVSub(b, a)  w == RVSub(a, o)  det == X2(d, e) IN IF RSgn(det) = 0 THEN <<>> ELSE <<RDiv(X2(w, e), det), RDiv(X2(w, d), det)>>
\* segment on the line of the ray: parameters of its ends
ParamOf(o, d, p) == RDiv(RDot(RVSub(p, o), d), RDot(d, d))
Coinc(o, d, a, b) == RSgn(X2(d, RVSub(a, o))) = 0 /\ RSgn(X2(d, RVSub(b, o))) = 0
\* three-valued membership with margin eps: "in", "edge", "out"; xs = numbers that must be >= 0
Tri3(xs, eps) == IF \A i \in 1..Len(xs) : RLe(eps, xs[i]) THEN "in" ELSE IF \E i \in 1..Len(xs) : RLt(xs[i], RNeg(eps)) THEN "out" ELSE "edge"
\* exact data: the library's operations introduce no rounding, so the boundary belongs to the object
Mem(xs, eps, exact) == IF exact THEN IF \A i \in 1..Len(xs) : RSgn(xs[i]) >= 0 THEN "in" ELSE "out" ELSE Tri3(xs, eps)
=============================================================================
