-------------------------------- MODULE Psr ---------------------------------
(* Stochastic Poisson surface reconstruction on a grid with gs nodes, spacing *)
(* h and first node corner: the samples (P, N) are smoothed into a gradient   *)
(* field on the staggered grids (Gaussian process with the lumped covariance  *)
(* density + sigma_n^2), and the scalar field is the one with that divergence.*)
EXTENDS Spectrum, SequencesExt
Kn == INSTANCE Kernels
Bits == 120
R(x) == RRound(x, Bits)
MinH(h) == LET f[d \in 1..Len(h)] == IF d = 1 THEN h[1] ELSE RMin(f[d-1], h[d]) IN f[Len(h)]
Half == "1/2"
Node(corner, h, c) == [d \in 1..Len(c) |-> RAdd(corner[d], RMul(h[d], RNum(c[d])))]
StagCorner(corner, h, d) == [corner EXCEPT ![d] = RAdd(@, RMul(Half, h[d]))]
\* the smoothing kernel: product of cubic splines of width 3/2 of the smallest spacing; it vanishes three spacings away
Ker(h, x, y) ==
    LET m == MinH(h) IN
    IF \E d \in 1..Len(h) : RLe(RMul("3", m), RAbs(RSub(x[d], y[d]))) THEN "0"
    ELSE R(Kn!Density(3, RMul("3/2", m), y, 0, x))
---------------------------------------------------------------------------
\* Sampling density: hat weights on the grid grown by half a cell, blurred along each axis by a
\* Gaussian of three cells cut at twelve, walls reflecting (d c b a | a b c d | d c b a)
Bell == LET w == TLCEval([k \in 0..12 |-> RExp(RNeg(RDiv(RNum(k * k), "18")), 90)])
            tot == RAdd(w[0], RMul("2", RSum([k \in 1..12 |-> w[k]]))) IN
        TLCEval([k \in 0..12 |-> R(RDiv(w[k], tot))])
Reflect(i, n) == LET q == i % (2 * n) IN IF q < n THEN q ELSE 2 * n - 1 - q
Blur(n, bell) == TLCEval([i \in 0..(n-1) |-> TLCEval([j \in 0..(n-1) |->
                 RSum([k \in 1..25 |-> IF Reflect(i + k - 13, n) = j THEN bell[Abs(k - 13)] ELSE "0"])])])
\* overlap of two hats along one axis of n nodes, at u and v (in cells)
Overlap(B, n, u, v) ==
    LET A == Near1(n, u)  C == Near1(n, v)
        pairs == A \X C
        t(p) == RMul(RMul(Hat1(RSub(u, RNum(p[1]))), Hat1(RSub(v, RNum(p[2])))), B[p[1]][p[2]])
        RECURSIVE S(_)
        S(Q) == IF Q = {} THEN "0" ELSE LET p == CHOOSE p \in Q : TRUE IN RAdd(t(p), S(Q \ {p})) IN R(S(pairs))
Cellwise(P, corner, h) == [i \in 1..Len(P) |-> [d \in 1..Len(h) |-> RDiv(RSub(P[i][d], corner[d]), h[d])]]
Density(P, gs, h, corner) ==
    LET dim == Len(gs)  bell == Bell
        U == TLCEval(Cellwise(P, [d \in 1..dim |-> RSub(corner[d], RMul(Half, h[d]))], h))
        B == TLCEval([d \in 1..dim |-> Blur(gs[d] + 1, bell)])
        vol == Prod2(dim, h) IN
    TLCEval([i \in 1..Len(P) |-> R(RDiv(RSum([j \in 1..Len(P) |-> Prod2(dim, [d \in 1..dim |-> Overlap(B[d], gs[d] + 1, U[i][d], U[j][d])])]), vol))])
---------------------------------------------------------------------------
Affine(a, x, d) == RAdd(a.c[d], RDot(a.m[d], x))       \* component d of an affine field
\* the nodes of staggered grid d, and the kernel values between them and each sample
Smear(P, gs, h, corner, d) ==
    LET g == Less(gs, d)  sc == StagCorner(corner, h, d)
        X == TLCEval([r \in 1..Prod(g) |-> Node(sc, h, Coord(g, r - 1))]) IN
    [X |-> X, k |-> TLCEval([i \in 1..Len(P) |-> TLCEval([r \in 1..Prod(g) |-> Ker(h, P[i], X[r])])])]
Field(sm, P, N, inv, prior, d) ==
    LET y == TLCEval([i \in 1..Len(P) |-> R(RMul(inv[i], RSub(N[i][d], Affine(prior, P[i], d))))]) IN
    TLCEval([r \in 1..Len(sm.X) |-> R(RAdd(Affine(prior, sm.X[r], d), RDot(y, [i \in 1..Len(P) |-> sm.k[i][r]])))])
\* sparse matrices << <<row, column, value>>, .. >> (0-based): differences along d, their transpose, and sum of G' G
GradM(gs, h, d) ==
    LET n == Prod(Less(gs, d))  w == RDiv("1", h[d]) IN
    TLCEval([q \in 1..(2 * n) |-> LET r == (q - 1) \div 2  e == DiffRow(gs, d, r) IN IF q % 2 = 1 THEN <<r, e[1], RNeg(w)>> ELSE <<r, e[2], w>>])
Transpose(T) == TLCEval([q \in 1..Len(T) |-> <<T[q][2], T[q][1], T[q][3]>>])
Grads(gs, h) == TLCEval([d \in 1..Len(gs) |-> GradM(gs, h, d)])
VSum(F) == LET f[q \in 1..Len(F)] == IF q = 1 THEN F[1] ELSE RVAdd(f[q-1], F[q]) IN f[Len(F)]
Diff(Gd, gs, d, u) == RVRound(RSpMV(Gd, Prod(Less(gs, d)), u), Bits)
Div(Gs, F, n) == RVRound(VSum([d \in 1..Len(Gs) |-> RSpMV(Transpose(Gs[d]), n, F[d])]), Bits)     \* sum of G_d' F_d
Eps == "4722366482869645/4722366482869645213696"         \* the double nearest to 1e-6
\* (G' G + eps) u
Screened(Gs, gs, u) ==
    RVRound(RVAdd(Div(Gs, [d \in 1..Len(gs) |-> RSpMV(Gs[d], Prod(Less(gs, d)), u)], Prod(gs)), RVScale(Eps, u)), Bits)
Mean(x) == RDiv(RSum(x), RNum(Len(x)))
Centred(x) == LET m == Mean(x) IN RVSub(x, TLCEval([i \in 1..Len(x) |-> m]))
Sq(x) == RDot(x, x)
---------------------------------------------------------------------------
\* Kernel between the nodes of staggered grid d, a sparse matrix: offsets up to two
Stencil(h) == TLCEval([o \in [1..Len(h) -> -2..2] |-> Ker(h, [d \in 1..Len(h) |-> RMul(h[d], RNum(o[d]))], [d \in 1..Len(h) |-> "0"])])
Between(gs, d, sten) ==
    LET gd == Less(gs, d)
        offs == TLCEval(SetToSeq({o \in DOMAIN sten : sten[o] # "0"}))
        all == [q \in 1..(Prod(gd) * Len(offs)) |->
                  LET r == (q - 1) \div Len(offs)  o == offs[((q - 1) % Len(offs)) + 1]  c == Coord(gd, r)
                      x == [k \in 1..Len(gs) |-> c[k] + o[k]] IN
                  IF InGrid(gd, x) THEN <<r, Index(gd, x), sten[o]>> ELSE <<r, r, "0">>] IN
    TLCEval(all)
=============================================================================
