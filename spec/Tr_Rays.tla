------------------------------- MODULE Tr_Rays -------------------------------
(* P18: recorded ray casts report the first hit and nothing else.             *)
EXTENDS Rays, Outcome
VARIABLES h, l, st, bad
Eps == "1/1000000000"
Rel(sc) == RMul(Eps, sc)
NumOf(o) == IF o.t = "int" THEN RNum(o.v) ELSE IF o.t = "num" THEN o.v ELSE IF o.t = "arr" /\ o.sh = <<1>> THEN RNum(o.a[1]) ELSE "nan"
AllInf(s) == \A i \in Idx(s) : s[i] = "inf"
Size(ps) == LET f[i \in 0..Len(ps)] == IF i = 0 THEN "0" ELSE LET p == ps[i] g[j \in 0..Len(p)] == IF j = 0 THEN f[i-1] ELSE RMax(g[j-1], RAbs(p[j])) IN g[Len(p)] IN f[Len(ps)]
Norm1(d) == Size(<<d>>)
NearP(x, p, sc) == RVNear(x, p, Rel(sc), "0")
\* ---- boxes
Half(w) == RVScale("1/2", w)
Grow(p, by) == [i \in Idx(p) |-> RAdd(p[i], by)]
BoxJ(e) ==
    LET o == e.in.o  d == e.in.d  lo == RVSub(e.in.c, Half(e.in.w))  hi == RVAdd(e.in.c, Half(e.in.w))
        t == BoxEntry(o, d, lo, hi)
        by == Rel(Size(<<o, lo, hi>>))
        sure == e.in.exact \/ ((BoxEntry(o, d, Grow(lo, by), Grow(hi, RNeg(by))) = "none") = (BoxEntry(o, d, Grow(lo, RNeg(by)), Grow(hi, by)) = "none"))
        r == e.out
    IN IF r.t # "seq" \/ Len(r.a) # 2 \/ r.a[1].t # "bool" \/ ~IsArr(r.a[2], "f", <<Len(o)>>) THEN {"ray_box_intersect: shape of the result"}
       ELSE LET hit == r.a[1].v  x == r.a[2].a IN Failing({
         <<"ray_box_intersect: hit not reported", (sure /\ t # "none") => hit>>,
         <<"ray_box_intersect: miss reported as a hit", (sure /\ t = "none") => ~hit>>,
         <<"ray_box_intersect: not the first point in the box", (hit /\ t # "none") => NearP(x, Along(o, d, t), Size(<<o, lo, hi>>))>>,
         <<"ray_box_intersect: point of a miss has no infinite entry", ~hit => \E i \in Idx(x) : x[i] = "inf">>,
         <<"ray_box_intersect: argument modified or returned", e.in.same>>})
\* ---- one triangle.  state of a ray against a triangle: membership and exact parameter
\* shallow: |det| small relative to the sizes, where rounding may decide anything
L1(p) == RSum([i \in Idx(p) |-> RAbs(p[i])])
Shallow(d, a, b, c) == RLe(RAbs(TriDet(d, a, b, c)), RMul("1/10000000", RMul(L1(d), RMul(L1(RVSub(b, a)), L1(RVSub(c, a))))))
\* [m |-> "in"/"edge"/"out"/"any", t |-> exact parameter]
Cast(o, d, T, exact, neg) ==
    LET s == TriSolve(o, d, T[1], T[2], T[3]) IN
    IF s = <<>> THEN [m |-> IF exact \/ RSgn(RDot(RVSub(o, T[1]), RCross(RVSub(T[2], T[1]), RVSub(T[3], T[1])))) # 0 THEN "out" ELSE "any", t |-> "inf"]
    ELSE IF Shallow(d, T[1], T[2], T[3]) /\ ~exact THEN [m |-> "any", t |-> s[1]]
    ELSE LET sc == RDiv(Size(<<o>> \o T), Size(<<d>>))   \* parameters in units of the scene
             ts == IF neg THEN "1" ELSE RDiv(s[1], sc)
         IN [m |-> Mem(<<s[2], s[3], RSub(RSub("1", s[2]), s[3]), ts>>, Eps, exact), t |-> s[1]]
TNear(t, w, o, d, T) == RIsNum(t) /\ RNear(RMul(t, Size(<<d>>)), RMul(w, Size(<<d>>)), RMul("1/10000000", Size(<<o, RVScale(w, d)>> \o T)), "0")
TriJ(e) ==
    LET o == e.in.o  d == e.in.d  T == e.in.T  c == Cast(o, d, T, e.in.exact, e.in.neg)  r == e.out IN
    IF r.t # "seq" \/ Len(r.a) # 3 \/ r.a[2].t # "bool" \/ ~IsArr(r.a[3], "f", <<3>>) THEN {"ray_triangle_intersect: shape of the result"}
    ELSE LET t == NumOf(r.a[1])  hit == r.a[2].v  x == r.a[3].a IN Failing({
      <<"ray_triangle_intersect: hit not reported", c.m = "in" => hit>>,
      <<"ray_triangle_intersect: miss reported as a hit", c.m = "out" => ~hit>>,
      <<"ray_triangle_intersect: wrong parameter", (hit /\ c.m \in {"in", "edge"}) => TNear(t, c.t, o, d, T)>>,
      <<"ray_triangle_intersect: negative parameter", (hit /\ ~e.in.neg) => RLe("0", t)>>,
      <<"ray_triangle_intersect: point is not origin + t direction", hit => RIsNum(t) /\ NearP(x, Along(o, d, t), Size(<<o, RVScale(t, d)>> \o T))>>,
      <<"ray_triangle_intersect: miss not reported as such", ~hit => t = "inf" /\ \E i \in 1..3 : x[i] = "inf">>,
      <<"ray_triangle_intersect: argument modified", e.in.same>>})
\* ---- meshes
Pick(X, f) == [j \in Idx(f) |-> X[f[j] + 1]]
MeshJ(s, e) ==
    LET nr == Len(e.in.o)  r == e.out  m == Len(s.F)  nm == e.in.what \o ": " IN
    IF r.t # "seq" \/ Len(r.a) # 3 \/ ~IsArr(r.a[1], "f", <<nr>>) \/ ~IsArr(r.a[2], "i", <<nr>>) \/ ~IsArr(r.a[3], "f", <<nr, 3>>) THEN {nm \o "shape of the result"}
    ELSE LET C == TLCEval([k \in 1..nr |-> TLCEval([i \in 1..m |-> Cast(e.in.o[k], e.in.d[k], Pick(s.V, s.F[i]), e.in.exact[k], FALSE)])])
             t(k) == r.a[1].a[k]  id(k) == r.a[2].a[k] + 1  lam(k) == r.a[3].a[k]
             hit(k) == id(k) \in 1..m
             T(k) == Pick(s.V, s.F[id(k)])
             first(k, i) == LET o == e.in.o[k] d == e.in.d[k] w == C[k][i].t IN RLe(t(k), w) \/ TNear(t(k), w, o, d, s.V)
         IN Failing({
           <<nm \o "hit not reported", \A k \in 1..nr : (\E i \in 1..m : C[k][i].m = "in") => hit(k)>>,
           <<nm \o "miss reported as a hit", \A k \in 1..nr : hit(k) => C[k][id(k)].m # "out">>,
           <<nm \o "not the first hit", \A k \in 1..nr : hit(k) => RIsNum(t(k)) /\ RLe("0", t(k)) /\ \A i \in 1..m : C[k][i].m = "in" => first(k, i)>>,
           <<nm \o "wrong parameter of the reported triangle", \A k \in 1..nr : (hit(k) /\ C[k][id(k)].m \in {"in", "edge"}) => TNear(t(k), C[k][id(k)].t, e.in.o[k], e.in.d[k], s.V)>>,
           <<nm \o "coordinates do not reproduce the hit point", \A k \in 1..nr : hit(k) =>
               /\ RIsNum(t(k)) /\ RNear(RSum(lam(k)), "1", Eps, "0") /\ \A j \in 1..3 : RIsNum(lam(k)[j]) /\ RLe("-1/10000000", lam(k)[j])
               /\ LET p == RVAdd(RVScale(lam(k)[1], T(k)[1]), RVAdd(RVScale(lam(k)[2], T(k)[2]), RVScale(lam(k)[3], T(k)[3])))
                      o == e.in.o[k]  d == e.in.d[k]
                  IN RVNear(p, Along(o, d, t(k)), RMul("1/10000000", Size(<<o, RVScale(t(k), d)>> \o T(k))), "0")>>,
           <<nm \o "miss not reported as such", \A k \in 1..nr : ~hit(k) => r.a[2].a[k] = -1 /\ t(k) = "inf" /\ \A j \in 1..3 : lam(k)[j] = "0">>,
           <<nm \o "argument modified", e.in.same>>})
\* ---- polylines
PolyJ(e) ==
    LET o == e.in.o  d == e.in.d  X == e.in.X  E == e.in.E  m == Len(E)  r == e.out  mx == e.in.max
        A(i) == X[E[i][1] + 1]  B(i) == X[E[i][2] + 1]
        sc == Size(<<o>> \o X)
        nd == RSqrt(RDot(d, d), 200)
        lim(t) == IF RLe(RMul(t, RMax("1", nd)), RMul(mx, "999999/1000000")) THEN "in" ELSE IF RLe(mx, RMul(t, RMin("1", nd))) THEN "out" ELSE "edge"
        And3(a, b) == IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "edge" \/ b = "edge" THEN "edge" ELSE "in"
        near(t) == IF RLe(RMul(RAbs(t), RMul("1000000000", nd)), sc) THEN "edge" ELSE IF RSgn(t) > 0 THEN "in" ELSE "out"
        \* first parameter on edge i, with membership
        cast(i) == LET s == SegSolve(o, d, A(i), B(i))  e1 == RVSub(B(i), A(i)) IN
            IF s = <<>> THEN IF ~Coinc(o, d, A(i), B(i)) THEN [m |-> "out", t |-> "inf"]
                             ELSE LET a == ParamOf(o, d, A(i))  b == ParamOf(o, d, B(i))  t == RMin(a, b) IN
                                  IF RSgn(t) > 0 THEN [m |-> And3(near(t), lim(t)), t |-> t] ELSE [m |-> IF RSgn(RMax(a, b)) < 0 THEN "out" ELSE "any", t |-> "0"]
            ELSE IF RLe(RAbs(X2(d, e1)), RMul("1/10000", RMul(nd, RSqrt(RDot(e1, e1), 200)))) /\ ~e.in.exact THEN [m |-> "any", t |-> s[1]]
            ELSE [m |-> And3(Mem(<<s[2], RSub("1", s[2])>>, Eps, e.in.exact), And3(near(s[1]), lim(s[1]))), t |-> s[1]]
        C == TLCEval([i \in 1..m |-> cast(i)])
    IN IF r.t # "seq" \/ Len(r.a) # 3 \/ ~IsArr(r.a[1], "f", <<2>>) \/ ~IsArr(r.a[2], "f", <<2>>) \/ r.a[3].t # "int" THEN {"ray_polyline_intersect: shape of the result"}
       ELSE LET x == r.a[1].a  n == r.a[2].a  id == r.a[3].v + 1  hit == id \in 1..m
                t == ParamOf(o, d, x)  tn(w) == RNear(RMul(t, nd), RMul(w, nd), RMul("1/10000000", RAdd(sc, RMul(RAbs(w), nd))), "0")
                e1 == RVSub(B(id), A(id))  ln == RSqrt(RDot(e1, e1), 200)
            IN Failing({
              <<"ray_polyline_intersect: hit not reported", (\E i \in 1..m : C[i].m = "in") => hit>>,
              <<"ray_polyline_intersect: miss reported as a hit", hit => C[id].m # "out">>,
              <<"ray_polyline_intersect: not the first hit", (hit /\ \A j \in 1..2 : RIsNum(x[j])) => \A i \in 1..m : C[i].m = "in" => RLe(t, C[i].t) \/ tn(C[i].t)>>,
              <<"ray_polyline_intersect: point not on the ray and the reported edge", hit => (\A j \in 1..2 : RIsNum(x[j])) /\
                  RNear(X2(RVSub(x, o), d), "0", RMul(Rel(RAdd(sc, Size(<<x>>))), L1(d)), "0") /\ RLe(RNeg(Rel(sc)), t) /\
                  RNear(X2(RVSub(x, A(id)), e1), "0", RMul(RMul("1/10000000", RAdd(sc, Size(<<x>>))), L1(e1)), "0") /\
                  (C[id].m = "in" => tn(C[id].t))>>,
              <<"ray_polyline_intersect: not the normal of the reported edge", hit => RVNear(n, <<RNeg(RDiv(e1[2], ln)), RDiv(e1[1], ln)>>, Eps, "0")>>,
              <<"ray_polyline_intersect: miss not reported as such", ~hit => r.a[3].v = -1 /\ AllInf(x) /\ n = <<"0", "0">>>>,
              <<"ray_polyline_intersect: argument modified", e.in.same>>})
Jdg(s, e) ==
    CASE e.op = "box" -> V(s, BoxJ(e))
      [] e.op = "tri" -> V(s, TriJ(e))
      [] e.op = "scene" -> Ok([V |-> e.in.V, F |-> e.in.F])
      [] e.op = "mesh" -> V(s, MeshJ(s, e))
      [] e.op = "poly" -> V(s, PolyJ(e))
S0(hist) == [V |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
