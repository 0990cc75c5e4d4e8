------------------------------- MODULE Tr_Psr --------------------------------
(* P35: recorded calls of stochastic_poisson_surface_reconstruction.          *)
EXTENDS Psr, Outcome
VARIABLES h, l, st, bad
Fn == "stochastic_poisson_surface_reconstruction"
\* Op of the value of x, computed once
Fix(x, Op(_)) == CHOOSE r \in {Op(w) : w \in {x}} : TRUE
ColMin(P, d) == LET f[i \in 1..Len(P)] == IF i = 1 THEN P[1][d] ELSE RMin(f[i-1], P[i][d]) IN f[Len(P)]
ColMax(P, d) == LET f[i \in 1..Len(P)] == IF i = 1 THEN P[1][d] ELSE RMax(f[i-1], P[i][d]) IN f[Len(P)]
\* the box of the samples, half as large again about its centre
EnvLo(P, d) == RSub(ColMin(P, d), RMul("1/4", RSub(ColMax(P, d), ColMin(P, d))))
EnvHi(P, d) == RAdd(ColMax(P, d), RMul("1/4", RSub(ColMax(P, d), ColMin(P, d))))
Grid(i) ==
    LET D == 1..Len(i.P[1]) IN
    CASE i.given = "all" -> [gs |-> i.gs, h |-> i.h, c |-> i.corner]
      [] i.given = "size" -> [gs |-> i.gs, h |-> [d \in D |-> RDiv(RSub(EnvHi(i.P, d), EnvLo(i.P, d)), RNum(i.gs[d]))], c |-> [d \in D |-> EnvLo(i.P, d)]]
      [] i.given = "spacing" -> [gs |-> [d \in D |-> RToInt(RFloor(RDiv(RSub(EnvHi(i.P, d), i.corner[d]), i.h[d])), 0)], h |-> i.h, c |-> i.corner]
\* numpy.meshgrid of the node coordinates: axes 1 and 2 swapped
GridOk(o, G) ==
    LET dim == Len(G.gs)  sh == [d \in 1..dim |-> IF d = 1 THEN G.gs[2] ELSE IF d = 2 THEN G.gs[1] ELSE G.gs[d]]
        x(d, q) == RAdd(G.c[d], RMul(RNum(q), G.h[d]))
        near(a, d, q) == RNear(a, x(d, q), RMul("1/1000000000", RAdd(RAbs(G.c[d]), RMul(RNum(G.gs[d]), G.h[d]))), "0") IN
    /\ o.t = "seq" /\ Len(o.a) = dim
    /\ \A d \in 1..dim : /\ IsArr(o.a[d], "f", sh)
                         /\ IF dim = 2
                            THEN \A a \in 1..sh[1], b \in 1..sh[2] : near(o.a[d].a[a][b], d, IF d = 1 THEN b - 1 ELSE a - 1)
                            ELSE \A a \in 1..sh[1], b \in 1..sh[2], z \in 1..sh[3] : near(o.a[d].a[a][b][z], d, IF d = 1 THEN b - 1 ELSE IF d = 2 THEN a - 1 ELSE z - 1)
MaxAbs(x) == LET f[q \in 0..Len(x)] == IF q = 0 THEN "0" ELSE RMax(f[q-1], RAbs(x[q])) IN f[Len(x)]
MeanOk(u, F, Gs, G, n) ==
    Fix(Div(Gs, F, n), LAMBDA b :
    Fix(RVRound(Centred(RVSub(Screened(Gs, G.gs, u), b)), Bits), LAMBDA z :
    LET lim == RAdd(RMul("1/50000", RSqrt(Sq(b), 80)), "1/1000000000") IN RLe(Sq(z), RMul(lim, lim))))
\* values of a nodal field at the samples
Sampled(u, gs, U) ==
    LET dim == Len(gs) IN
    [i \in 1..Len(U) |->
        LET box == {x \in [1..dim -> 0..1] : TRUE}
            base == [d \in 1..dim |-> RToInt(RFloor(U[i][d]), 0)]
            RECURSIVE S(_)
            S(Q) == IF Q = {} THEN "0"
                    ELSE LET x == CHOOSE x \in Q : TRUE  c == [d \in 1..dim |-> base[d] + x[d]] IN
                         IF InGrid(gs, c) THEN RAdd(RMul(Hat(c, U[i]), u[Index(gs, c) + 1]), S(Q \ {x})) ELSE S(Q \ {x})
        IN S(box)]
\* f_k' (sigma^2 (k1 - k2' D k2)) f_l summed over the staggered grids, for gradient fields f of k and l
Form(A, B, inv, sig) ==
    RMul(RMul(sig, sig), RSum([d \in 1..Len(A) |->
        RSub(RDot(A[d].g, B[d].k), RDot(inv, [p \in 1..Len(inv) |-> RMul(A[d].s[p], B[d].s[p])]))]))
\* gradient of a nodal field, its spread and what the samples see of it
Prep(w, gs, Gs, Ks, sms) ==
    TLCEval([d \in 1..Len(gs) |-> LET g == TLCEval(Diff(Gs[d], gs, d, w)) IN
        [g |-> g, k |-> TLCEval(RVRound(RSpMV(Ks[d], Len(g), g), Bits)), s |-> TLCEval([p \in 1..Len(sms[d].k) |-> RRound(RDot(sms[d].k[p], g), Bits)])]])
CertOk(w, node, gs, Gs, n) ==
    /\ Len(w) = n
    /\ RLe(RAbs(RSum(w)), RMul("1/1000000000", RMul(RNum(n), MaxAbs(w))))
    /\ RVNear(Screened(Gs, gs, w), [q \in 1..n |-> RSub(IF q = node + 1 THEN "1" ELSE "0", RDiv("1", RNum(n)))], "1/1000000000", "0")
DirectOk(v, i, gs, Gs, Ks, sms, inv) ==
    LET q(k) == Fix(Prep(i.cert[k], gs, Gs, Ks, sms), LAMBDA pr : Form(pr, pr, inv, i.sigma))
        at(k) == v[i.nodes[k] + 1] IN
    Fix(TLCEval([k \in 1..Len(i.nodes) |-> R(q(k))]), LAMBDA val :
    Fix(RAdd(RMul("1/1000000", MaxAbs(val)), RMul("1/1000000000000", MaxAbs(v))), LAMBDA tol :
    \A k \in 1..Len(val) : RNear(RSub(at(k), at(1)), RSub(val[k], val[1]), tol, "0")))
RECURSIVE Listing(_, _, _, _, _)
Listing(k, front, done, seq, l0) ==
    IF k = 0 THEN seq
    ELSE LET N == CHOOSE N \in Least(front, l0, "0") : TRUE  T == done \union {N} IN
         Listing(k - 1, (front \ {N}) \union Opened(N, T), T, Append(seq, N), l0)
SubspaceOk(v, i, G, Gs, Ks, sms, inv, n) ==
    LET gs == G.gs  dim == Len(gs)
        box == [d \in 1..dim |-> RMul(RNum(gs[d]), G.h[d])] IN
    Fix(Listing(i.m, {Origin(dim)}, {}, << >>, box), LAMBDA modes :
    Fix(TLCEval([d \in 1..dim |-> TLCEval([q \in 1..(2 * gs[d]) |-> Factor(q - 1, 1, gs[d])])]), LAMBDA tab :
    LET col(N) == TLCEval([q \in 1..n |-> LET c == Coord(gs, q - 1) IN R(Prod2(dim, [d \in 1..dim |-> tab[d][((N[d] * c[d]) % (2 * (gs[d] - 1))) + 1]]))]) IN
    Fix(TLCEval([k \in 1..(i.m - 1) |-> col(modes[k + 1])]), LAMBDA W :
    Fix([prep |-> TLCEval([k \in DOMAIN W |-> Prep(W[k], gs, Gs, Ks, sms)]),
         lam |-> TLCEval([k \in DOMAIN W |-> R(RDot(W[k], Screened(Gs, gs, W[k])))])], LAMBDA A :
    Fix(TLCEval([k \in DOMAIN W |-> TLCEval([q \in DOMAIN W |-> R(RDiv(Form(A.prep[k], A.prep[q], inv, i.sigma), RMul(A.lam[k], A.lam[q])))])]), LAMBDA C :
    Fix(TLCEval([q \in 1..n |-> Fix(TLCEval([k \in DOMAIN W |-> W[k][q]]), LAMBDA x : R(RDot(x, [k \in DOMAIN W |-> RDot(C[k], x)])))]), LAMBDA val :
    Fix(RAdd(RMul("1/100000", MaxAbs(val)), RMul("1/1000000", MaxAbs(v))), LAMBDA tol :
    LET z == i.nodes[1] + 1 IN \A q \in 1..n : RNear(RSub(v[q], v[z]), RSub(val[q], val[z]), tol, "0"))))))))
Shared(i, G) ==
    LET P == i.P  dim == Len(P[1]) IN
    Fix([dens |-> Density(P, G.gs, G.h, G.c), sms |-> TLCEval([d \in 1..dim |-> Smear(P, G.gs, G.h, G.c, d)]), Gs |-> Grads(G.gs, G.h), sten |-> Stencil(G.h)], LAMBDA A :
    Fix([inv |-> TLCEval([p \in 1..Len(P) |-> R(RDiv("1", RAdd(A.dens[p], RMul(i.sn, i.sn))))]), Ks |-> IF i.var THEN TLCEval([d \in 1..dim |-> Between(G.gs, d, A.sten)]) ELSE << >>], LAMBDA B :
        [sms |-> A.sms, Gs |-> A.Gs, inv |-> B.inv, Ks |-> B.Ks, F |-> TLCEval([d \in 1..dim |-> Field(A.sms[d], P, i.N, B.inv, i.prior, d)])]))
Clauses(i, o, k, G, n, D) ==
    LET P == i.P  u == o.a[1].a  gs == G.gs  v == o.a[2].a  Gs == D.Gs
        zero == RSum(Sampled(u, gs, Cellwise(P, G.c, G.h)))
        lo == RAdd(RMul(i.sn, i.sn), Eps) IN
    Failing({<<Fn \o ": grid vertices", GridOk(o.a[k], G)>>,
             <<Fn \o ": the mean field does not have the divergence of the smoothed normals", MeanOk(u, D.F, Gs, G, n)>>,
             <<Fn \o ": the mean field does not average to zero over the points", RLe(RAbs(zero), RMul("1/100000000", RMul(RNum(Len(P)), RAdd(MaxAbs(u), "1/1000000"))))>>,
             <<Fn \o ": argument modified", i.same>>}
        \union (IF ~i.var THEN {} ELSE
             {<<Fn \o ": least variance", RNear(v[i.nodes[1] + 1], lo, "1/1000000000", "1/1000000000") /\ \A q \in 1..n : RLe(v[i.nodes[1] + 1], v[q])>>}
             \union (IF i.m > 0 THEN {<<Fn \o ": variance in the subspace of the lowest modes", SubspaceOk(v, i, G, Gs, D.Ks, D.sms, D.inv, n)>>}
                     ELSE {<<"certificate", \A q \in 1..Len(i.nodes) : CertOk(i.cert[q], i.nodes[q], gs, Gs, n)>>,
                           <<Fn \o ": variance", DirectOk(v, i, gs, Gs, D.Ks, D.sms, D.inv)>>})))
PsrJ(s, e) ==
    Fix(Grid(e.in), LAMBDA G :
    LET i == e.in  o == e.out  n == Prod(G.gs)  k == IF i.var THEN 3 ELSE 2 IN
    IF ~(o.t = "seq" /\ Len(o.a) = k /\ IsArr(o.a[1], "f", <<n>>) /\ (i.var => IsArr(o.a[2], "f", <<n>>)))
    THEN V(s, {Fn \o ": shape of the results"})
    ELSE V(s, Fix(Shared(i, G), LAMBDA D : Clauses(i, o, k, G, n, D))))
Jdg(s, e) == CASE e.op = "psr" -> PsrJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
