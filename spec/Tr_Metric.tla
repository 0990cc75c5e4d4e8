------------------------------ MODULE Tr_Metric -----------------------------
(* P12: lengths, areas, volumes, normals, angles.  A history fixes positions  *)
(* X and simplices F and measures them; the state keeps the recorded tip      *)
(* angles, from which angle defects must follow.                              *)
EXTENDS GeoMesh, Outcome
VARIABLES h, l, st, bad
Rel == "1/1000000000"
Near(a, b, sc) == RNear(a, b, RMul(Rel, sc), "0")
VNear(x, y, sc) == Len(x) = Len(y) /\ \A i \in Idx(x) : Near(x[i], y[i], sc)
Cross2(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Det(a, b, c) == RDot(a, RCross(b, c))
K == 60
TwoPi == RMul("2", RPi(K))
\* angle a in [0, pi] between directions with dot product d, |cross| = x (both scaled by any common factor >= 0)
IsAngle(a, d, x, sc) == /\ RIsNum(a)
                        /\ RLe(RNeg(Rel), a) /\ RLe(a, RAdd(RPi(K), Rel))
                        /\ LET r == Root(RAdd(RMul(d, d), RMul(x, x)))
                           IN RNear(RMul(RCos(a, K), r), d, RMul(sc, r), "0") /\ RNear(RMul(RSin(a, K), r), x, RMul(sc, r), "0")
LenJ(s, e) ==
    LET sq == e.in.squared  nm == IF sq THEN "halfedge_lengths_squared" ELSE "halfedge_lengths" IN
    IF ~IsArr(e.out, "f", <<Len(s.F), 3>>) THEN {nm \o ": shape"}
    ELSE Failing({<<nm \o ": wrong value", \A i \in Idx(s.F) : \A j \in 1..3 :
         LET w == SqLen(s.X, s.F[i], j)  g == e.out.a[i][j]
             mx == RAdd(RMul("1/1000000000000000", s.ext2), w)   \* cancellation against the coordinates' size
         IN IF sq THEN Near(g, w, mx) ELSE RSgn(g) >= 0 /\ Near(RMul(g, g), w, mx)>>})
AreaJ(s, e) ==
    LET signed == e.in.signed  w == Len(s.F[1])  d == Len(s.X[1]) IN
    IF ~IsArr(e.out, "f", <<Len(s.F)>>) THEN {"doublearea: shape"}
    ELSE Failing({<<"doublearea: wrong value", \A i \in Idx(s.F) : LET f == s.F[i]  g == e.out.a[i] IN
         IF w = 2 THEN RSgn(g) >= 0 /\ LET t == RMul("4", RDist2(Pt(s.X, f[1]), Pt(s.X, f[2]))) IN Near(RMul(g, g), t, RAdd(t, RMul("1/1000000000000000", s.ext2)))
         ELSE LET a == DblA2(s.X, f)  L == RMul(SqLen(s.X, f, 1), SqLen(s.X, f, 2))  tol == RAdd(L, RMul(L, "1/1000")) IN
              IF signed /\ d = 2 THEN Near(g, Cross2(Vec(s.X, f[1], f[2]), Vec(s.X, f[1], f[3])), RAdd(Root(L), RMul("1/1000000000000000", s.ext2)))
              ELSE RSgn(g) >= 0 /\ Near(RMul(g, g), a, RMul("10", tol))>>})
VolJ(s, e) ==
    IF ~IsArr(e.out, "f", <<Len(s.F)>>) THEN {"volume: shape"}
    ELSE Failing({<<"volume: not the signed volume", \A i \in Idx(s.F) : LET t == s.F[i]
            w == Det(Vec(s.X, t[1], t[2]), Vec(s.X, t[1], t[3]), Vec(s.X, t[1], t[4]))
            m == MaxAbs2(<<Vec(s.X, t[1], t[2]), Vec(s.X, t[1], t[3]), Vec(s.X, t[1], t[4])>>)
         IN Near(RMul("6", e.out.a[i]), w, RMul(m, RMul(m, RMul("20", m))))>>})
BaryJ(s, e) ==
    LET d == Len(s.X[1])  w == Len(s.F[1]) IN
    IF ~IsArr(e.out, "f", <<Len(s.F), d>>) THEN {"barycenters: shape"}
    ELSE Failing({<<"barycenters: not the mean of the corners", \A i \in Idx(s.F) : \A c \in 1..d :
         Near(RMul(RNum(w), e.out.a[i][c]), RSum([k \in 1..w |-> Pt(s.X, s.F[i][k])[c]]), s.ext)>>})
\* (non-unit) normal of a segment (d = 2) or triangle (d = 3)
RawN(X, f) == IF Len(f) = 2 THEN LET v == Vec(X, f[1], f[2]) IN <<v[2], RNeg(v[1])>>
              ELSE RCross(Vec(X, f[1], f[2]), Vec(X, f[1], f[3]))
Unit(v) == LET r == Root(RDot(v, v)) IN [c \in 1..Len(v) |-> Quo(v[c], r)]
FNJ(s, e) ==
    LET d == Len(s.X[1]) IN
    IF ~IsArr(e.out, "f", <<Len(s.F), d>>) THEN {"per_face_normals: shape"}
    ELSE Failing({<<"per_face_normals: wrong normal", \A i \in Idx(s.F) : LET w == RawN(s.X, s.F[i]) IN
          IF e.in.unit THEN VNear(e.out.a[i], Unit(w), RMul("10", "1")) ELSE VNear(e.out.a[i], w, RMul("10", MaxAbs1(w)))>>})
VNJ(s, e) ==
    LET d == Len(s.X[1])  n == Len(s.X) IN
    IF ~IsArr(e.out, "f", <<n, d>>) THEN {"per_vertex_normals: shape"}
    ELSE LET raw == TLCEval([i \in Idx(s.F) |-> RawN(s.X, s.F[i])])
             vs == UNION {Range(s.F[i]) : i \in Idx(s.F)}
             tot(v) == [c \in 1..d |-> RSum([i \in Idx(s.F) |-> IF v \in Range(s.F[i]) THEN raw[i][c] ELSE "0"])]
             sc == MaxAbs2(raw)
         IN Failing({<<"per_vertex_normals: not the normalised area-weighted mean", \A v \in vs : LET t == tot(v) IN
               RLt(RMul("1/1000", sc), MaxAbs1(t)) => VNear(e.out.a[v + 1], Unit(t), "1000")>>})
TipJ(s, e) ==
    IF ~IsArr(e.out, "f", <<Len(s.F), 3>>) THEN V(s, {"tip_angles: shape"})
    ELSE LET tol == IF e.in.sliver THEN "1/1000000" ELSE "1/100000000" IN
    V([s EXCEPT !.ang = e.out.a], Failing({
        <<"tip_angles: wrong angle", \A i \in Idx(s.F) : LET a == DblA(s.X, s.F[i]) IN \A j \in 1..3 :
            IsAngle(e.out.a[i][j], CornerDot(s.X, s.F[i], j), a, tol)>>,
        <<"tip_angles: angles of a triangle do not sum to pi", \A i \in Idx(s.F) : RNear(RSum(e.out.a[i]), RPi(K), RMul("4", tol), "0")>>}))
DefectJ(s, e) ==
    LET n == e.in.n  vs == VertSet(s.F)  bd == UNION BoundaryU(s.inc) IN
    IF ~IsArr(e.out, "f", <<n>>) THEN {"angle_defect: shape"}
    ELSE Failing({
       <<"angle_defect: not zero at the boundary", \A v \in bd : REq(e.out.a[v + 1], "0")>>,
       <<"angle_defect: not 2 pi minus the angles around the vertex", s.ang # <<>> => \A v \in vs \ bd :
           LET S == RSum([q \in 1..(3 * Len(s.F)) |-> LET i == ((q-1) \div 3) + 1  j == ((q-1) % 3) + 1 IN IF s.F[i][j] = v THEN s.ang[i][j] ELSE "0"])
           IN RNear(e.out.a[v + 1], RSub(TwoPi, S), Rel, "0")>>,
       <<"angle_defect: closed mesh does not sum to 2 pi chi", (bd = {}) =>
           RNear(RSum([v \in 1..n |-> IF (v - 1) \in vs THEN e.out.a[v] ELSE "0"]), RMul(TwoPi, RNum(EulerChar(s.F))), "1/1000000", "0")>>})
DihJ(s, e) ==
    IF ~IsArr(e.out, "f", <<Len(s.F), 3>>) THEN {"dihedral_angles: shape"}
    ELSE LET raw == TLCEval([i \in Idx(s.F) |-> RawN(s.X, s.F[i])])
             other(x) == CHOOSE y \in s.inc[USide(s.F[x[1]], x[2])] : y # x
             th(x) == e.out.a[x[1]][x[2]]
         IN Failing({
           <<"dihedral_angles: boundary sides are not nan", \A x \in HE(s.F) : (Cardinality(s.inc[USide(s.F[x[1]], x[2])]) = 1) = (th(x) = "nan")>>,
           <<"dihedral_angles: wrong angle", \A x \in HE(s.F) : Cardinality(s.inc[USide(s.F[x[1]], x[2])]) = 2 =>
              LET a == raw[x[1]]  b == raw[other(x)[1]]  c == RCross(a, b)
              IN IsAngle(th(x), RDot(a, b), Root(RDot(c, c)), "1/100000000")>>})
Mesh(e) == LET F == e.in.F  tri == Len(F[1]) = 3
               m == MaxAbs2(e.in.X)
           IN [F |-> F, X |-> e.in.X, inc |-> IF tri THEN IncOf(F) ELSE <<>>, ang |-> <<>>, ext |-> RMul("10", m), ext2 |-> RMul(m, m)]
Jdg(s, e) ==
    CASE e.op = "mesh" -> Ok(Mesh(e))
      [] e.op = "halfedge_lengths" -> V(s, LenJ(s, e))
      [] e.op = "doublearea" -> V(s, AreaJ(s, e))
      [] e.op = "volume" -> V(s, VolJ(s, e))
      [] e.op = "barycenters" -> V(s, BaryJ(s, e))
      [] e.op = "per_face_normals" -> V(s, FNJ(s, e))
      [] e.op = "per_vertex_normals" -> V(s, VNJ(s, e))
      [] e.op = "tip_angles" -> TipJ(s, e)
      [] e.op = "angle_defect" -> V(s, DefectJ(s, e))
      [] e.op = "dihedral_angles" -> V(s, DihJ(s, e))
S0(hist) == [F |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
