----------------------------- MODULE Elasticity -----------------------------
(* Plane linear elasticity with linear triangles: strains, stresses, elastic  *)
(* forces, von Mises stress, and one implicit Euler step with prescribed      *)
(* displacements.  Displacement fields are pairs <<ux, uy>> of vertex vectors.*)
EXTENDS GeoMesh, LinAlg
Lame(K, mu) == [mu |-> mu, l |-> RSub(K, RMul("2/3", mu))]
\* twice the signed area, and the partial derivatives of the interpolant of u
Dbl2(X, f) == LET a == Vec(X, f[1], f[2])  b == Vec(X, f[1], f[3]) IN RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
Dx(X, f, u) == RDiv(RSum([j \in 1..3 |-> RMul(Pt(u, f[j]), RSub(Pt(X, f[Nx(j)])[2], Pt(X, f[Pv(j)])[2]))]), Dbl2(X, f))
Dy(X, f, u) == RDiv(RSum([j \in 1..3 |-> RMul(Pt(u, f[j]), RSub(Pt(X, f[Pv(j)])[1], Pt(X, f[Nx(j)])[1]))]), Dbl2(X, f))
\* engineering strain: e11, e22, 2 e12
Strain(X, f, u) == TLCEval(<<Dx(X, f, u[1]), Dy(X, f, u[2]), RAdd(Dy(X, f, u[1]), Dx(X, f, u[2]))>>)
Stress(m, e) == <<RAdd(RMul(RAdd(m.l, RMul("2", m.mu)), e[1]), RMul(m.l, e[2])),
                  RAdd(RMul(m.l, e[1]), RMul(RAdd(m.l, RMul("2", m.mu)), e[2])), RMul(m.mu, e[3])>>
AreaOf(X, f) == RMul(Half, RAbs(Dbl2(X, f)))
\* what the elastic energy of the field u gives away along the field w, over the element areas ar
Pair(X, F, ar, m, u, w) == RSum([i \in 1..Len(F) |-> RMul(ar[i], RDot(Strain(X, F[i], w), Stress(m, Strain(X, F[i], u))))])
\* the same gathered at the vertices: <<Kx, Ky>> with Pair(u, w) = Kx.wx + Ky.wy
Forces(X, F, ar, m, u) ==
    LET n == Len(X)
        s == TLCEval([i \in 1..Len(F) |-> RVRound(RVScale(RDiv(ar[i], Dbl2(X, F[i])), Stress(m, Strain(X, F[i], u))), PB)])
        cx(i, j) == RSub(Pt(X, F[i][Nx(j)])[2], Pt(X, F[i][Pv(j)])[2])
        cy(i, j) == RSub(Pt(X, F[i][Pv(j)])[1], Pt(X, F[i][Nx(j)])[1])
    IN << RSpMV(Flat3(Len(F), 3, LAMBDA i, j : <<F[i][j], 0, RAdd(RMul(s[i][1], cx(i, j)), RMul(s[i][3], cy(i, j)))>>), n, <<"1">>),
          RSpMV(Flat3(Len(F), 3, LAMBDA i, j : <<F[i][j], 0, RAdd(RMul(s[i][2], cy(i, j)), RMul(s[i][3], cx(i, j)))>>), n, <<"1">>) >>
\* sigma_v^2 of a plane stress state
Mises2(t) == RAdd(RSub(RAdd(RMul(t[1], t[1]), RMul(t[2], t[2])), RMul(t[1], t[2])), RMul("3", RMul(t[3], t[3])))
\* out of balance of u as the new displacement: (M + dt^2 K) u - M (u0 + dt v0 + dt^2 f), per axis
\* (M: entries of the mass matrix of one axis)
Imbalance(X, F, ar, m, M, dt, u, u0, v0, f) ==
    LET k == TLCEval(Forces(X, F, ar, m, u))  d2 == RMul(dt, dt) IN
    [a \in 1..2 |-> RVAdd(RVScale(d2, k[a]), RSpMV(M, Len(X), RVSub(u[a], RVAdd(u0[a], RVAdd(RVScale(dt, v0[a]), RVScale(d2, f[a]))))))]
=============================================================================
