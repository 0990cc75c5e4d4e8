------------------------------ MODULE Tr_Shapes -----------------------------
(* P09: the mesh generators.                                                  *)
EXTENDS GridMesh, BigRat, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000000000"
K == 60
Grid(i, n) == RDiv(i, n - 1)                        \* i-th of n equidistant values in [0,1]
CosA(j, n) == RCos(RDiv(RMul(RMul("2", RPi(K)), j), n), K)
SinA(j, n) == RSin(RDiv(RMul(RMul("2", RPi(K)), j), n), K)
Sub(p, q) == RVSub(p, q)
\* every wanted position is attained by exactly one vertex and conversely
SamePoints(X, want) == /\ Len(X) = Len(want)
                       /\ \A p \in Range(want) : Cardinality({i \in Idx(X) : RVNear(X[i], p, Tol, "0")}) = 1
Mesh2(e, nv, d, m, k) == /\ e.out.t = "seq" /\ Len(e.out.a) = 2 /\ IsArr(e.out.a[1], "f", <<nv, d>>) /\ IsArr(e.out.a[2], "i", <<m, k>>)
InRange(F, nv) == \A i \in Idx(F) : \A j \in Idx(F[i]) : F[i][j] >= 0 /\ F[i][j] < nv
AllUsed(F, nv) == UNION {Range(F[i]) : i \in Idx(F)} = 0..(nv - 1)
Proper(F) == \A i \in Idx(F) : Injective(F[i])
RECURSIVE FloodE(_, _, _)
FloodE(D, todo, seen) == IF todo = {} THEN seen
    ELSE LET nw == UNION {S \in D : S \cap todo # {}} \ seen IN FloodE(D, nw, seen \cup nw)
NLoops(B) ==  \* number of components of a set of disjoint cycles
    LET D == {Und(b) : b \in B} IN Cardinality({FloodE(D, {v}, {v}) : v \in UNION D})
\* topology of the named shape: Euler characteristic and number of boundary curves
Topo(nm, F, chi, nb) == LET inc == IncOf(F)  D == DOMAIN inc  v0 == F[1][1] IN Failing({
    <<nm \o ": not edge-manifold", EdgeManifold(inc)>>,
    <<nm \o ": not consistently oriented", EdgeManifold(inc) => Oriented(F, inc)>>,
    <<nm \o ": not vertex-manifold", VertexManifold(F)>>,
    <<nm \o ": Euler characteristic", EulerChar(F) = chi>>,
    <<nm \o ": not connected", FloodE(D, {v0}, {v0}) = VertSet(F)>>,
    <<nm \o ": number of boundary curves", NLoops(BoundaryO(F, inc)) = nb>>})
P(X, i) == X[i + 1]
Normal(X, f) == RCross(Sub(P(X, f[2]), P(X, f[1])), Sub(P(X, f[3]), P(X, f[1])))
Vol(X, F) == RSum([i \in Idx(F) |-> RDot(P(X, F[i][1]), RCross(P(X, F[i][2]), P(X, F[i][3])))])
Cen3(X, f) == RVAdd(P(X, f[1]), RVAdd(P(X, f[2]), P(X, f[3])))

SquareJ(e) ==
    LET nx == e.in.nx  ny == e.in.ny  nm == "regular_square_mesh"
        want == [k \in 1..(nx * ny) |-> <<RSub(RMul("2", Grid((k - 1) % nx, nx)), "1"), RSub(RMul("2", Grid((k - 1) \div nx, ny)), "1")>>]
    IN IF ~Mesh2(e, nx * ny, 2, 2 * (nx - 1) * (ny - 1), 3) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  F == e.out.a[2].a IN
    IF ~InRange(F, nx * ny) \/ ~Proper(F) THEN {nm \o ": index out of range or repeated"}
    ELSE LET inc == IncOf(F)
             a2(f) == LET u == Sub(P(X, f[2]), P(X, f[1]))  v == Sub(P(X, f[3]), P(X, f[1])) IN RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
             ext(f, c) == RSub(RMax(P(X, f[1])[c], RMax(P(X, f[2])[c], P(X, f[3])[c])), RMin(P(X, f[1])[c], RMin(P(X, f[2])[c], P(X, f[3])[c])))
             dx == RDiv("2", nx - 1)  dy == RDiv("2", ny - 1)
         IN Failing({
           <<nm \o ": vertices are not the grid nodes", SamePoints(X, want)>>,
           <<nm \o ": unused vertex", AllUsed(F, nx * ny)>>,
           <<nm \o ": triangle is not half a grid cell, counter-clockwise", \A i \in Idx(F) :
               RNear(a2(F[i]), RMul(dx, dy), Tol, "0") /\ RNear(ext(F[i], 1), dx, Tol, "0") /\ RNear(ext(F[i], 2), dy, Tol, "0")>>,
           <<nm \o ": boundary is not the border of the square", \A S \in BoundaryU(inc) : \E c \in {1, 2} : \E b \in {"-1", "1"} :
               \A v \in S : RNear(P(X, v)[c], b, Tol, "0")>>})
           \cup Topo(nm, F, 1, 1)

CubeJ(e) ==
    LET nx == e.in.nx  ny == e.in.ny  nz == e.in.nz  nm == "regular_cube_mesh"  nv == nx * ny * nz
        nc == (nx - 1) * (ny - 1) * (nz - 1)
        hex == e.in.type = "hex"
        per == IF hex THEN 1 ELSE IF e.in.type = "five" THEN 5 ELSE 6
    IN IF ~Mesh2(e, nv, 3, per * nc, IF hex THEN 8 ELSE 4) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  T == e.out.a[2].a IN
    IF ~InRange(T, nv) \/ ~Proper(T) THEN {nm \o ": index out of range or repeated"}
    ELSE LET co == TLCEval([i \in 0..(nv - 1) |-> <<(i \div nz) % nx, i \div (nz * nx), i % nz>>])
             pos(q) == <<Grid(q[1], nx), Grid(q[2], ny), Grid(q[3], nz)>>
             tet == TLCEval([i \in Idx(T) |-> [k \in Idx(T[i]) |-> co[T[i][k]]]])
             lo(t, a) == SetMin({t[k][a] : k \in Idx(t)})
             hi(t, a) == SetMax({t[k][a] : k \in Idx(t)})
             cell(t) == <<lo(t, 1), lo(t, 2), lo(t, 3)>>
             incell == \A i \in Idx(T) : \A a \in 1..3 : hi(tet[i], a) = lo(tet[i], a) + 1
             bdry(S) == \E a \in 1..3 : \E c \in {0, <<nx, ny, nz>>[a] - 1} : \A v \in S : co[v][a] = c
         IN Failing({
           <<nm \o ": vertices are not the grid nodes in the documented order", \A i \in 0..(nv - 1) : RVNear(X[i + 1], pos(co[i]), Tol, "0")>>,
           <<nm \o ": unused vertex", AllUsed(T, nv)>>,
           <<nm \o ": element is not inside one grid cell", incell>>})
          \cup IF hex THEN Failing({
             <<nm \o ": hexahedra are not the cells", Cardinality({cell(tet[i]) : i \in Idx(T)}) = nc>>,
             <<nm \o ": corners of a hexahedron out of order", \A i \in Idx(T) :
                LET t == tet[i]  o(k) == Sub3(t[k], t[1]) IN
                <<o(1), o(2), o(3), o(4)>> = << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>> >> /\ \A k \in 1..4 : Sub3(t[k + 4], t[k]) = <<0,0,1>> >>})
          ELSE LET inc == TIncOf(T)  vol == TLCEval([i \in Idx(T) |-> Vol6(tet[i])])
                   tot(c) == Cardinality({i \in Idx(T) : cell(tet[i]) = c})
               IN Failing({
             <<nm \o ": inverted or flat tet", \A i \in Idx(T) : vol[i] > 0>>,
             <<nm \o ": tets do not fill the cube", RSum([i \in Idx(T) |-> RNum(vol[i])]) = RNum(6 * nc)>>,
             <<nm \o ": number of tets per cell", \A c \in {cell(tet[i]) : i \in Idx(T)} : tot(c) = per>>,
             <<nm \o ": tets do not meet face to face", Conforming(e.in.type) => \A S \in DOMAIN inc :
                  Cardinality(inc[S]) = (IF bdry(S) THEN 1 ELSE 2)>>})

ConeJ(e) ==
    LET nx == e.in.nx  nz == e.in.nz  nm == "cone"  nv == nx * (nz - 1) + 1
        lvl == [k \in 1..(nx * (nz - 1)) |-> <<(k - 1) % nx, (k - 1) \div nx>>]
        rc == TLCEval([j \in 0..(nx - 1) |-> <<CosA(j, nx), SinA(j, nx)>>])
        want == [k \in 1..nv |-> IF k = nv THEN <<"0", "0", "1">> ELSE
                   LET z == Grid(lvl[k][2], nz)  s == RSub("1", z) IN <<RMul(s, rc[lvl[k][1]][1]), RMul(s, rc[lvl[k][1]][2]), z>>]
    IN IF ~Mesh2(e, nv, 3, 2 * nx * (nz - 2) + nx, 3) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  F == e.out.a[2].a IN
    IF ~InRange(F, nv) \/ ~Proper(F) THEN {nm \o ": index out of range or repeated"}
    ELSE Failing({
       <<nm \o ": vertices are not on the stated rings", SamePoints(X, want)>>,
       <<nm \o ": unused vertex", AllUsed(F, nv)>>,
       <<nm \o ": face does not point outward", \A i \in Idx(F) : LET c == Cen3(X, F[i]) IN
            RSgn(RDot(Normal(X, F[i]), <<c[1], c[2], "0">>)) > 0>>,
       <<nm \o ": boundary is not the base circle", \A S \in BoundaryU(IncOf(F)) : \A v \in S : RNear(P(X, v)[3], "0", Tol, "0")>>})
       \cup Topo(nm, F, 1, 1)

CylJ(e) ==
    LET nx == e.in.nx  nz == e.in.nz  nm == "cylinder"  nv == nx * nz
        rc == TLCEval([j \in 0..(nx - 1) |-> <<CosA(j, nx), SinA(j, nx)>>])
        want == [k \in 1..nv |-> <<rc[(k - 1) % nx][1], rc[(k - 1) % nx][2], Grid((k - 1) \div nx, nz)>>]
    IN IF ~Mesh2(e, nv, 3, 2 * nx * (nz - 1), 3) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  F == e.out.a[2].a IN
    IF ~InRange(F, nv) \/ ~Proper(F) THEN {nm \o ": index out of range or repeated"}
    ELSE Failing({
       <<nm \o ": vertices are not on the stated rings", SamePoints(X, want)>>,
       <<nm \o ": unused vertex", AllUsed(F, nv)>>,
       <<nm \o ": face does not point outward", \A i \in Idx(F) : LET c == Cen3(X, F[i]) IN
            RSgn(RDot(Normal(X, F[i]), <<c[1], c[2], "0">>)) > 0>>,
       <<nm \o ": boundary is not the two end circles", \A S \in BoundaryU(IncOf(F)) : \E z \in {"0", "1"} : \A v \in S : RNear(P(X, v)[3], z, Tol, "0")>>})
       \cup Topo(nm, F, 0, 2)

TorusJ(e) ==
    LET nR == e.in.nR  nr == e.in.nr  R == e.in.R  r == e.in.r  nm == "torus"  nv == nR * nr
        cR == TLCEval([j \in 0..(nR - 1) |-> <<CosA(j, nR), SinA(j, nR)>>])
        cr == TLCEval([j \in 0..(nr - 1) |-> <<CosA(j, nr), SinA(j, nr)>>])
        want == [k \in 1..nv |-> LET a == cR[(k - 1) % nR]  b == cr[(k - 1) \div nR]  q == RAdd(R, RMul(r, b[1])) IN
                   <<RMul(q, a[1]), RMul(q, a[2]), RMul(r, b[2])>>]
    IN IF ~Mesh2(e, nv, 3, 2 * nv, 3) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  F == e.out.a[2].a IN
    IF ~InRange(F, nv) \/ ~Proper(F) THEN {nm \o ": index out of range or repeated"}
    ELSE Failing({
       <<nm \o ": vertices are not on the torus grid", SamePoints(X, want)>>,
       <<nm \o ": unused vertex", AllUsed(F, nv)>>,
       <<nm \o ": not outward (negative volume)", RSgn(Vol(X, F)) > 0>>})
       \cup Topo(nm, F, 0, 0)

IcoJ(s, e) ==
    LET n == e.in.n  nm == "icosphere"  q == 4 ^ n  nv == 10 * q + 2 IN
    IF ~Mesh2(e, nv, 3, 20 * q, 3) THEN V(s, {nm \o ": sizes"})
    ELSE LET X == e.out.a[1].a  F == e.out.a[2].a IN
    IF ~InRange(F, nv) \/ ~Proper(F) THEN V(s, {nm \o ": index out of range or repeated"})
    ELSE LET D == EdgeSet(F)
             len == TLCEval([S \in D |-> LET u == CHOOSE u \in S : TRUE  v == CHOOSE v \in S : v # u IN RRound(RDist2(P(X, u), P(X, v)), 60)])
             mx == LET L == {len[S] : S \in D} IN CHOOSE a \in L : \A b \in L : RLe(b, a)
         IN V(X, Failing({
       <<nm \o ": vertex off the unit sphere", \A i \in Idx(X) : RNear(RDot(X[i], X[i]), "1", Tol, "0")>>,
       <<nm \o ": unused vertex", AllUsed(F, nv)>>,
       <<nm \o ": face does not point outward", \A i \in Idx(F) : RSgn(RDot(Normal(X, F[i]), Cen3(X, F[i]))) > 0>>,
       <<nm \o ": edges of very different length", \A S \in D : IF n = 0 THEN RNear(len[S], mx, Tol, "0") ELSE RLe(RMul(mx, "2/3"), len[S])>>,
       <<nm \o ": vertices of the coarser level moved", \A i \in Idx(s) : \E k \in Idx(X) : RVNear(X[k], s[i], Tol, "0")>>})
       \cup Topo(nm, F, 2, 0))

CircleJ(e) ==
    LET n == e.in.n  nm == "regular_circle_polyline"
        want == [k \in 1..n |-> <<CosA(k - 1, n), SinA(k - 1, n)>>]
    IN IF ~Mesh2(e, n, 2, n, 2) THEN {nm \o ": sizes"}
    ELSE LET X == e.out.a[1].a  E == e.out.a[2].a IN
    IF ~InRange(E, n) \/ ~Proper(E) THEN {nm \o ": index out of range or repeated"}
    ELSE LET D == {Und(E[k]) : k \in 1..n} IN Failing({
       <<nm \o ": vertices are not n equidistant points of the circle", SamePoints(X, want)>>,
       <<nm \o ": every vertex starts one edge and ends one edge", Cardinality({E[k][1] : k \in 1..n}) = n /\ Cardinality({E[k][2] : k \in 1..n}) = n>>,
       <<nm \o ": not a single closed curve", FloodE(D, {0}, {0}) = 0..(n - 1)>>,
       <<nm \o ": edges do not join neighbours counter-clockwise", \A k \in 1..n :
            LET a == P(X, E[k][1])  b == P(X, E[k][2]) IN
            RNear(RSub(RMul(a[1], b[2]), RMul(a[2], b[1])), SinA(1, n), Tol, "0") /\ RNear(RDot(a, b), CosA(1, n), Tol, "0")>>})

Jdg(s, e) ==
    CASE e.op = "regular_square_mesh" -> V(s, SquareJ(e))
      [] e.op = "regular_cube_mesh" -> V(s, CubeJ(e))
      [] e.op = "cone" -> V(s, ConeJ(e))
      [] e.op = "cylinder" -> V(s, CylJ(e))
      [] e.op = "torus" -> V(s, TorusJ(e))
      [] e.op = "icosphere" -> IcoJ(s, e)
      [] e.op = "regular_circle_polyline" -> V(s, CircleJ(e))
S0(hist) == <<>>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
