------------------------------- MODULE Tr_Fem --------------------------------
(* P10, P11: discrete exterior calculus and finite element operators.         *)
(* A history fixes a mesh and probe functions ("mesh": X positions, F faces,  *)
(* n vertices, U probes, and the edge list the library numbers edges by) and  *)
(* then asks for operators; each operator is judged by its action on the      *)
(* probes, against exact arithmetic on the positions.  State: the mesh and    *)
(* the actions seen so far (Gu), to relate operators to each other.           *)
EXTENDS GeoMesh, Outcome
VARIABLES h, l, st, bad
Rel == "1/1000000000"

VNear(x, y, sc) == Len(x) = Len(y) /\ \A i \in Idx(x) : RNear(x[i], y[i], RMul(Rel, sc), "0")
SpShape(o, r, c) == IsSp(o, <<r, c>>)
\* the sparse matrix o acts on the probes as the triples want do
ActsLike(o, want, n, U) == LET sc == MaxTrip(want) IN
    \A k \in Idx(U) : VNear(RSpMV(o.e, n, U[k]), RSpMV(want, n, U[k]), RMul(sc, RMul("10", MaxAbs1(U[k]))))
Symm(o) == LET sc == MaxTrip(o.e)
               K == [i \in {o.e[k][1] : k \in Idx(o.e)} |-> {k \in Idx(o.e) : o.e[k][1] = i}]
           IN \A k \in Idx(o.e) : LET i == o.e[k][1]  j == o.e[k][2] IN
                i # j => j \in DOMAIN K /\ \E q \in K[j] : o.e[q][2] = i /\ RNear(o.e[q][3], o.e[k][3], RMul(Rel, sc), "0")
Diagonal(o) == \A k \in Idx(o.e) : o.e[k][1] = o.e[k][2]
DiagOf(o, n) == RSpMV(o.e, n, [i \in 1..n |-> "1"])
Reffed(F, n) == VertSet(F)

\* ---- DEC
D0J(s, e) ==
    LET E == s.E  n == e.in.n IN
    IF ~SpShape(e.out, Len(E), n) THEN {"dec_d0: shape"}
    ELSE Failing({<<"dec_d0: +1 at the first and -1 at the second vertex of each edge",
        {e.out.e[k] : k \in Idx(e.out.e)} = UNION {{<<k - 1, E[k][1], "1">>, <<k - 1, E[k][2], "-1">>} : k \in Idx(E)}>>})
D1J(s, e) ==
    LET F == s.F  E == s.E IN
    IF ~SpShape(e.out, Len(F), Len(E)) THEN {"dec_d1: shape"}
    ELSE Failing({
       <<"dec_d1: +1 where a face runs along an edge, -1 where against",
        {e.out.e[k] : k \in Idx(e.out.e)} = UNION {{<<x[1] - 1, k - 1, IF HSide(F, x) = E[k] THEN "1" ELSE "-1">> :
             x \in s.inc[Und(E[k])]} : k \in Idx(E)}>>,
       <<"dec: d1 d0 is not zero", s.D0 # <<>> => \A k \in Idx(s.U) :
            \A v \in Range(RSpMV(e.out.e, Len(F), RSpMV(s.D0, Len(E), s.U[k]))) : REq(v, "0")>>})
StarDiag(s, which, n) ==
    CASE which = "0" -> MassVec(s.X, s.F, "barycentric", n)
      [] which = "1" -> [k \in Idx(s.E) |-> LET I == s.inc[Und(s.E[k])]  w == s.W
                             f[J \in SUBSET I] == IF J = {} THEN "0" ELSE LET x == CHOOSE x \in J : TRUE IN RAdd(w[x[1]][x[2]], f[J \ {x}])
                         IN f[I]]
      [] which = "2" -> [i \in Idx(s.F) |-> RMul(Half, DblA(s.X, s.F[i]))]
StarJ(s, e) ==
    LET which == e.in.which  inv == e.in.inv
        nm == "dec_h" \o which \o (IF inv THEN "inv" ELSE "")
        size == CASE which = "0" -> e.in.n [] which = "1" -> Len(s.E) [] which = "2" -> Len(s.F)
    IN IF ~SpShape(e.out, size, size) THEN {nm \o ": shape"}
       ELSE LET want == StarDiag(s, which, size)  got == DiagOf(e.out, size)  sc == MaxAbs1(want)
                \* an inverse is only determined where the star is not (nearly) zero
                big == {k \in 1..size : RLt(RMul("1/100000", sc), RAbs(want[k]))}
            IN Failing({
              <<nm \o ": not diagonal", Diagonal(e.out)>>,
              <<nm \o ": wrong entry", \A k \in 1..size : IF inv THEN k \in big => RNear(RMul(got[k], want[k]), "1", Rel, "0")
                                                   ELSE RNear(got[k], want[k], RMul(Rel, sc), "0")>>})

\* ---- FEM
GradJ(s, e) ==
    LET F == s.F  m == Len(F)  d == Len(s.X[1])  n == s.n  line == Len(F[1]) = 2 IN
    IF ~SpShape(e.out, IF line THEN m ELSE d * m, n) THEN V(s, {"grad: shape"})
    ELSE LET Gu == TLCEval([k \in Idx(s.U) |-> RSpMV(e.out.e, IF line THEN m ELSE d * m, s.U[k])])
             g(k, i) == [c \in 1..d |-> Gu[k][(c - 1) * m + i]]
         IN IF line THEN V(s, Failing({<<"grad: derivative along the segment", \A k \in Idx(s.U) : \A i \in 1..m :
                 RNear(RMul(Gu[k][i], Root(RDist2(Pt(s.X, F[i][1]), Pt(s.X, F[i][2])))), RSub(Pt(s.U[k], F[i][2]), Pt(s.U[k], F[i][1])), RMul(Rel, MaxAbs1(s.U[k])), "0")>>}))
            ELSE V([s EXCEPT !.G = Gu], Failing({<<"grad: not the gradient of the linear interpolant", \A k \in Idx(s.U) : \A i \in 1..m :
                 LET want == GradOf(s.X, F[i], s.U[k]) IN VNear(g(k, i), want, RAdd(MaxAbs1(want), Quo(RMul(MaxAbs1(s.U[k]), "1/100"), Root(SqLen(s.X, F[i], 1)))))>>}))
GradIJ(s, e) ==
    LET F == s.F  m == Len(F)  n == e.in.n IN
    IF ~SpShape(e.out, 2 * m, n) THEN {"grad_intrinsic: shape"}
    ELSE Failing({<<"grad_intrinsic: components along edge (1,2) and its rotation", \A k \in Idx(s.U) : LET u == s.U[k]  G == RSpMV(e.out.e, 2 * m, u) IN \A i \in 1..m :
        LET f == F[i]  l0 == Root(SqLen(s.X, f, 1))
            px == Quo(CornerDot(s.X, f, 2), l0)  py == Quo(DblA(s.X, f), l0)  tol == RMul(Rel, MaxAbs1(u))
        IN /\ RNear(RMul(G[i], l0), RSub(Pt(u, f[3]), Pt(u, f[2])), tol, "0")
           /\ RNear(RAdd(RMul(G[i], px), RMul(G[m + i], py)), RSub(Pt(u, f[1]), Pt(u, f[2])), tol, "0")>>})
CotWJ(s, e) ==
    IF ~IsArr(e.out, "f", <<Len(s.F), 3>>) THEN {"cotangent_weights: shape"}
    ELSE Failing({<<"cotangent_weights: not half the cotangent opposite the side", \A i \in Idx(s.F) : VNear(e.out.a[i], s.W[i], RAdd("1", MaxAbs1(s.W[i])))>>})
LapJ(s, e) ==
    LET n == e.in.n  want == TLCEval(LapTrip(s.F, s.W)) IN
    IF ~SpShape(e.out, n, n) THEN {"cotangent_laplacian: shape"}
    ELSE Failing({
      <<"cotangent_laplacian: not the cotangent matrix", ActsLike(e.out, want, n, s.U)>>,
      <<"cotangent_laplacian: not symmetric", Symm(e.out)>>,
      <<"cotangent_laplacian: constants not in the kernel", VNear(DiagOf(e.out, n), [i \in 1..n |-> "0"], MaxTrip(want))>>,
      <<"cotangent_laplacian: energy is not that of the gradient", s.G # <<>> => \A k \in Idx(s.U) :
          LET m == Len(s.F)  d == Len(s.X[1])
              en == RSum([i \in 1..m |-> RMul(RMul(Half, DblA(s.X, s.F[i])), RSum([c \in 1..d |-> RMul(s.G[k][(c-1)*m+i], s.G[k][(c-1)*m+i])]))])
          IN RNear(RDot(s.U[k], RSpMV(e.out.e, n, s.U[k])), en, RMul(Rel, RMul(MaxTrip(want), RMul(RNum(20 * n), RMul(MaxAbs1(s.U[k]), MaxAbs1(s.U[k]))))), "0")>>})
Total(o) == RSum([k \in Idx(o.e) |-> o.e[k][3]])
MassJ(s, e) ==
    LET n == e.in.n  line == Len(s.F[1]) = 2
        want == TLCEval(IF line THEN Flat3(Len(s.F), 2, LAMBDA i, j : <<s.F[i][j], s.F[i][j], RMul(Half, Root(RDist2(Pt(s.X, s.F[i][1]), Pt(s.X, s.F[i][2]))))>>)
                ELSE MassTrip(s.X, s.F, e.in.type))
        vs == UNION {Range(s.F[i]) : i \in Idx(s.F)}
        dg == {e.out.e[k][1] : k \in {k \in Idx(e.out.e) : e.out.e[k][1] = e.out.e[k][2]}}
        nm == "massmatrix " \o e.in.type
    IN IF ~SpShape(e.out, n, n) THEN {"massmatrix: shape"}
    ELSE Failing({
      <<nm \o ": wrong entries", ActsLike(e.out, want, n, s.U)>>,
      <<nm \o ": not symmetric", Symm(e.out)>>,
      <<nm \o ": diagonal not positive", vs \subseteq dg /\ \A k \in Idx(e.out.e) : e.out.e[k][1] = e.out.e[k][2] => RSgn(e.out.e[k][3]) > 0>>,
      <<nm \o ": lumped mass has off-diagonal entries", e.in.type # "full" => Diagonal(e.out)>>})
\* biharmonic energies: bilinear form on all pairs of probes
BihWant(s, n, bc) ==
    LET F == s.F  mass == TLCEval(MassVec(s.X, F, "voronoi", n))
        d == Len(s.X[1])
    IN IF bc = "mixedfem_zero_neumann"
       THEN LET lt == TLCEval(LapTrip(F, s.W))
                Lu == TLCEval([k \in Idx(s.U) |-> RVRound(RSpMV(lt, n, s.U[k]), PB)])
            IN TLCEval([k \in Idx(s.U) |-> [q \in Idx(s.U) |->
                 RSum([i \in 1..n |-> IF RSgn(mass[i]) = 0 THEN "0" ELSE Quo(RMul(Lu[k][i], Lu[q][i]), mass[i])])]])
       ELSE \* hessian: per interior vertex the mass-weighted components of int grad(phi_i) (x) grad(u)
            LET
                bdv == UNION BoundaryU(s.inc)
                ints == {i \in VertSet(F) : i \notin bdv}
                hat(i) == [q \in 1..n |-> IF q = i + 1 THEN "1" ELSE "0"]
                star == TLCEval([i \in ints |-> {f \in Idx(F) : i \in Range(F[f])}])
                gu == TLCEval([k \in Idx(s.U) |-> [f \in Idx(F) |-> RVRound(GradOf(s.X, F[f], s.U[k]), PB)]])
                gh == TLCEval([i \in ints |-> [f \in star[i] |-> RVRound(GradOf(s.X, F[f], hat(i)), PB)]])
                ar == TLCEval([f \in Idx(F) |-> RMul(Half, DblA(s.X, F[f]))])
                SumF(i, T(_)) == LET g[J \in SUBSET star[i]] == IF J = {} THEN "0" ELSE LET f == CHOOSE f \in J : TRUE IN RAdd(T(f), g[J \ {f}]) IN g[star[i]]
                H == TLCEval([k \in Idx(s.U) |-> [i \in ints |-> [a \in 1..d |-> [b \in 1..d |->
                        RRound(SumF(i, LAMBDA f : RMul(ar[f], RMul(gh[i][f][a], gu[k][f][b]))), PB)]]]])
                SumI(T(_)) == LET g[J \in SUBSET ints] == IF J = {} THEN "0" ELSE LET f == CHOOSE f \in J : TRUE IN RAdd(T(f), g[J \ {f}]) IN g[ints]
            IN TLCEval([k \in Idx(s.U) |-> [q \in Idx(s.U) |->
                 SumI(LAMBDA i : Quo(RSum([ab \in 1..(d * d) |-> LET a == ((ab - 1) \div d) + 1  b == ((ab - 1) % d) + 1 IN RMul(H[k][i][a][b], H[q][i][a][b])]), mass[i + 1]))]])
BihJ(s, e) ==
    LET n == e.in.n  bc == e.in.bc IN
    IF ~SpShape(e.out, n, n) THEN {"biharmonic_energy: shape"}
    ELSE LET want == BihWant(s, n, bc)
             sc == RMul(MaxTrip(e.out.e), RNum(n * 20))
             ms == TLCEval([k \in Idx(s.U) |-> MaxAbs1(s.U[k])])
         IN Failing({
           <<"biharmonic_energy " \o bc \o ": wrong energy", \A k, q \in Idx(s.U) :
               RNear(RDot(s.U[k], RSpMV(e.out.e, n, s.U[q])), want[k][q], RMul(Rel, RMul(sc, RMul(ms[k], ms[q]))), "0")>>,
           <<"biharmonic_energy " \o bc \o ": not symmetric", Symm(e.out)>>,
           <<"biharmonic_energy " \o bc \o ": constants have energy", VNear(DiagOf(e.out, n), [i \in 1..n |-> "0"], sc)>>,
           <<"biharmonic_energy hessian: linear functions have energy", (bc = "hessian" /\ Len(s.X[1]) = 2) =>
               \A c \in 1..2 : LET x == [i \in 1..n |-> s.X[i][c]] IN VNear(RSpMV(e.out.e, n, x), [i \in 1..n |-> "0"], RMul(sc, MaxAbs1(x)))>>})

Mesh(e) == LET F == e.in.F  inc == IF Len(F[1]) = 3 THEN IncOf(F) ELSE <<>> IN
    [F |-> F, X |-> e.in.X, n |-> Len(e.in.X), U |-> e.in.U, E |-> e.in.E, inc |-> inc, G |-> <<>>, D0 |-> <<>>,
     W |-> IF Len(F[1]) = 3 THEN CotW(e.in.X, F) ELSE <<>>]
Jdg(s, e) ==
    CASE e.op = "mesh" -> Ok(Mesh(e))
      [] e.op = "dec_d0" -> V(IF e.out.t = "sp" THEN [s EXCEPT !.D0 = e.out.e] ELSE s, D0J(s, e))
      [] e.op = "dec_d1" -> V(s, D1J(s, e))
      [] e.op = "star" -> V(s, StarJ(s, e))
      [] e.op = "grad" -> GradJ(s, e)
      [] e.op = "grad_intrinsic" -> V(s, GradIJ(s, e))
      [] e.op = "cotangent_weights" -> V(s, CotWJ(s, e))
      [] e.op = "cotangent_laplacian" -> V(s, LapJ(s, e))
      [] e.op = "massmatrix" -> V(s, MassJ(s, e))
      [] e.op = "biharmonic_energy" -> V(s, BihJ(s, e))
S0(hist) == [F |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
