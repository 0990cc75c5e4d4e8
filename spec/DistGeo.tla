------------------------------- MODULE DistGeo -------------------------------
(* Exact closest points between points, segments and triangles with rational  *)
(* corners, in any dimension.  Every operator returns the closest points, so  *)
(* MC_DistGeo can check them by their optimality certificate.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
D2(p, q) == RDist2(p, q)
Comb(lam, pts) == LET f[i \in 1..Len(pts)] == IF i = 1 THEN RVScale(lam[1], pts[1]) ELSE RVAdd(f[i-1], RVScale(lam[i], pts[i])) IN f[Len(pts)]
Clamp01(t) == IF RIsNum(t) THEN RMax("0", RMin("1", t)) ELSE "0"
\* element = sequence of 1..3 corners; result: barycentric coordinates of the point of the element closest to p
SegLam(p, a, b) == LET u == RVSub(b, a)  t == Clamp01(RDiv(RDot(RVSub(p, a), u), RDot(u, u))) IN <<RSub("1", t), t>>
TriLam(p, a, b, c) ==
    LET u == RVSub(b, a)  v == RVSub(c, a)  w == RVSub(p, a)
        uu == RDot(u, u)  uv == RDot(u, v)  vv == RDot(v, v)  wu == RDot(w, u)  wv == RDot(w, v)
        det == RSub(RMul(uu, vv), RMul(uv, uv))
        s == RDiv(RSub(RMul(vv, wu), RMul(uv, wv)), det)
        t == RDiv(RSub(RMul(uu, wv), RMul(uv, wu)), det)
        q1 == SegLam(p, a, b)  q2 == SegLam(p, b, c)  q3 == SegLam(p, c, a)
        e1 == <<q1[1], q1[2], "0">>  e2 == <<"0", q2[1], q2[2]>>  e3 == <<q3[2], "0", q3[1]>>
        d(x) == D2(p, Comb(x, <<a, b, c>>))
        best == IF RLe(d(e1), d(e2)) THEN IF RLe(d(e1), d(e3)) THEN e1 ELSE e3 ELSE IF RLe(d(e2), d(e3)) THEN e2 ELSE e3
    IN IF RSgn(det) # 0 /\ RLe("0", s) /\ RLe("0", t) /\ RLe(RAdd(s, t), "1") THEN <<RSub("1", RAdd(s, t)), s, t>> ELSE best
ElemLam(p, el) == CASE Len(el) = 1 -> <<"1">> [] Len(el) = 2 -> SegLam(p, el[1], el[2]) [] Len(el) = 3 -> TriLam(p, el[1], el[2], el[3])
ElemPt(p, el) == Comb(ElemLam(p, el), el)
ElemD2(p, el) == D2(p, ElemPt(p, el))
\* pairs of closest points <<x, y>>
Better(P, Q) == IF RLe(D2(P[1], P[2]), D2(Q[1], Q[2])) THEN P ELSE Q
BestOf(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE Better(f[i-1], s[i]) IN f[Len(s)]
Sw(P) == <<P[2], P[1]>>
PtTo(p, el) == <<p, ElemPt(p, el)>>
SegSeg(a, b, c, d) ==
    LET u == RVSub(b, a)  v == RVSub(d, c)  w == RVSub(c, a)
        uu == RDot(u, u)  uv == RDot(u, v)  vv == RDot(v, v)  wu == RDot(w, u)  wv == RDot(w, v)
        det == RSub(RMul(uu, vv), RMul(uv, uv))
        s == RDiv(RSub(RMul(wu, vv), RMul(wv, uv)), det)
        t == RDiv(RSub(RMul(wu, uv), RMul(wv, uu)), det)
        ends == BestOf(<<PtTo(a, <<c, d>>), PtTo(b, <<c, d>>), Sw(PtTo(c, <<a, b>>)), Sw(PtTo(d, <<a, b>>))>>)
    IN IF RSgn(det) # 0 /\ RLe("0", s) /\ RLe(s, "1") /\ RLe("0", t) /\ RLe(t, "1")
       THEN <<RVAdd(a, RVScale(s, u)), RVAdd(c, RVScale(t, v))>> ELSE ends
\* segment pq against triangle, crossing its plane: candidate common point (only 3D)
Pierce(p, q, tr) ==
    LET n == RCross(RVSub(tr[2], tr[1]), RVSub(tr[3], tr[1]))
        x == RDot(n, RVSub(p, tr[1]))  y == RDot(n, RVSub(q, tr[1]))
    IN IF RSgn(x) * RSgn(y) >= 0 THEN PtTo(p, tr)
       ELSE PtTo(RVAdd(p, RVScale(RDiv(x, RSub(x, y)), RVSub(q, p))), tr)
N3(j) == (j % 3) + 1
\* a piercing candidate is only a pair of closest points if the points coincide
PierceOr(p, q, tr) == LET c == Pierce(p, q, tr) IN IF RSgn(D2(c[1], c[2])) = 0 THEN c ELSE PtTo(p, tr)
TriTri(S, T) ==
    BestOf([k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1  j == ((k - 1) % 3) + 1 IN SegSeg(S[i], S[N3(i)], T[j], T[N3(j)])]
           \o [i \in 1..3 |-> PtTo(S[i], T)] \o [j \in 1..3 |-> Sw(PtTo(T[j], S))]
           \o [i \in 1..3 |-> PierceOr(S[i], S[N3(i)], T)] \o [j \in 1..3 |-> Sw(PierceOr(T[j], T[N3(j)], S))])
TriTriD2(S, T) == LET P == TriTri(S, T) IN D2(P[1], P[2])
\* optimality: x in conv A, y in conv B are closest iff all corners lie beyond the supporting planes
Closest(x, y, A, B) == /\ \A i \in 1..Len(A) : RSgn(RDot(RVSub(y, x), RVSub(A[i], x))) <= 0
                       /\ \A i \in 1..Len(B) : RSgn(RDot(RVSub(x, y), RVSub(B[i], y))) <= 0
=============================================================================
