------------------------------ MODULE Spheres -------------------------------
(* One iteration of "Reach for the Spheres": a mesh flows towards a surface   *)
(* that touches, and does not enter, the spheres around given samples.        *)
(*   1. flow: an implicit Euler step of the mean squared distance between the *)
(*      point of the mesh closest to a sample and the place on the sample's   *)
(*      sphere where it should touch;                                         *)
(*   2. control: counters that refine the target edge length, resample, stop; *)
(*   3. remesh: edges longer than 7/5 h are split, shorter than 7/10 h are    *)
(*      collapsed, vertices slide along the curve.                            *)
(* Meshes are polylines in the plane (d = 2) or triangle meshes (d = 3).      *)
EXTENDS GeoMesh, DistGeo, FiniteSets
LOCAL K == 96
El(X, f) == [j \in 1..Len(f) |-> X[f[j] + 1]]
Zero(d) == [i \in 1..d |-> "0"]
\* ---- the constraint of sample u with value s: touching point on the mesh and its target on the sphere
\* p.tol, p.io (inside-outside test), p.clamp ("inf": none), p.pseudo
Normal2(el) == LET e == RVSub(el[2], el[1]) IN <<e[2], RNeg(e[1])>>
OutOf(el) == IF Len(el) = 2 THEN Normal2(el) ELSE RCross(RVSub(el[2], el[1]), RVSub(el[3], el[1]))
\* the element closest to u (the first of several), <<element, squared distance, barycentric coordinates>>
NearestOf(X, F, u) ==
    LET at == TLCEval([i \in 1..Len(F) |-> LET lam == ElemLam(u, El(X, F[i])) IN <<i, D2(u, Comb(lam, El(X, F[i]))), lam>>])
        low[i \in 1..Len(F)] == IF i = 1 THEN at[1][2] ELSE RMin(low[i-1], at[i][2])
        lim == RAdd(RMul(low[Len(F)], "1000000001/1000000000"), "1/1000000000000000000")
        first(i) == RLe(at[i][2], lim) /\ \A j \in 1..(i - 1) : ~RLe(at[j][2], lim)
    IN at[CHOOSE i \in 1..Len(F) : first(i)]
Touch(X, F, u, s, p) ==
    LET nr == TLCEval(NearestOf(X, F, u))  el == El(X, F[nr[1]])  lam == TLCEval(RVRound(nr[3], K))
        pe == Comb(lam, el)  r == RVSub(pe, u)  d == RSqrt(nr[2], K)
        g == RSub(RAbs(s), d)
        corner == \E j \in 1..Len(lam) : RLt(lam[j], "1/1000")
        side == IF p.io /\ ~corner THEN -RSgn(RDot(r, OutOf(el))) ELSE RSgn(s)
        k == RDiv(RMul(side, s), RMax(RMul(Half, p.tol), d))
        free == RSgn(g) < 0 /\ ((p.clamp # "inf" /\ REq(RAbs(s), p.clamp)) \/ (p.pseudo /\ RSgn(s) < 0))
    IN [f |-> nr[1], lam |-> lam, to |-> TLCEval(RVRound(RVAdd(u, RVScale(k, r)), K)), w |-> IF free THEN 0 ELSE 1,
        ok |-> RLt(RAbs(g), p.tol), near |-> RLt(RAbs(RSub(RAbs(g), p.tol)), "1/1000000000000")]
Touches(X, F, U, S, p) == TLCEval([q \in 1..Len(U) |-> TLCEval(Touch(X, F, U[q], S[q], p))])
AllMet(T) == \A q \in 1..Len(T) : T[q].ok
Unsure(T) == \E q \in 1..Len(T) : T[q].near
Unmet(T) == {T[q].f : q \in {r \in 1..Len(T) : ~T[r].ok}}
\* ---- mass of a vertex; elements are not allowed to vanish
MassOf2(X, F) ==
    LET len == TLCEval([i \in 1..Len(F) |-> RMax(RSqrt(D2(X[F[i][1] + 1], X[F[i][2] + 1]), K), RSqrt("25/1125899906842624", K))]) IN
    [v \in 1..Len(X) |-> RMul(Half, RSum([i \in 1..Len(F) |-> IF v - 1 \in {F[i][1], F[i][2]} THEN len[i] ELSE "0"]))]
Masses(X, F) == IF Len(F[1]) = 2 THEN TLCEval(MassOf2(X, F)) ELSE TLCEval(MassVec(X, F, "voronoi", Len(X)))
\* ---- residuals of the samples at positions Y, their gradient, and its image
Weight(F, t, v) == LET j == {i \in 1..Len(t.lam) : F[t.f][i] = v - 1} IN IF j = {} \/ t.w = 0 THEN "0" ELSE t.lam[CHOOSE i \in j : TRUE]
Apply(F, T, Y) == TLCEval([q \in 1..Len(T) |-> IF T[q].w = 0 THEN Zero(Len(Y[1])) ELSE TLCEval(RVRound(Comb(T[q].lam, El(Y, F[T[q].f])), K))])
Res(F, T, Y) == LET A == Apply(F, T, Y) IN TLCEval([q \in 1..Len(T) |-> IF T[q].w = 0 THEN A[q] ELSE TLCEval(RVSub(A[q], T[q].to))])
\* A^T R z at vertex v
Pull(F, T, z, v) ==
    LET f[q \in 0..Len(T)] == IF q = 0 THEN Zero(Len(z[1])) ELSE LET w == Weight(F, T[q], v) IN IF w = "0" THEN f[q-1] ELSE RVAdd(f[q-1], RVScale(w, z[q]))
    IN RVScale(RDiv("1", Len(T)), f[Len(T)])
Pulls(F, T, z, n) == TLCEval([v \in 1..n |-> TLCEval(RVRound(Pull(F, T, z, v), K))])
Dot2(a, b) == RSum([q \in 1..Len(a) |-> RDot(a[q], b[q])])
Energy(F, T, Y) == LET r == Res(F, T, Y) IN RDiv(Dot2(r, r), Len(T))
\* length of the step: sufficient decrease along steepest descent, within [mint, maxt]
Step(X, F, T, p) ==
    IF ~p.linesearch THEN p.dt
    ELSE LET r == Res(F, T, X)  gr == Pulls(F, T, r, Len(X))  dir == TLCEval([v \in 1..Len(X) |-> RVScale("-1", gr[v])])
             im == Apply(F, T, dir)
             a == RAdd(RDiv(Dot2(r, im), Len(T)), RMul("1/100", Dot2(dir, dir)))
             b == RDiv(Dot2(im, im), Len(T))
             t == IF RSgn(b) = 0 THEN "0" ELSE RNeg(RDiv(a, b))
         IN RMin(p.maxt, RMax(t, p.mint))
\* M (Y - X) = t A^T R (c - A Y) at the free vertices, Y = X at the fixed ones
MagOf(x) == MaxAbs1(x)
FlowOk(X, F, T, Y, t, fixed, rtol) ==
    LET m == Masses(X, F)  n == Len(X)
        pull == Pulls(F, T, Res(F, T, Y), n)
        ab == TLCEval([q \in 1..Len(T) |-> <<RAdd(MagOf(T[q].to), MaxAbs2(Y))>>])
        wgt == Pulls(F, T, ab, n)
        mag == TLCEval([v \in 1..n |-> RAdd(RMul(m[v], RAdd(MagOf(X[v]), MagOf(Y[v]))), RMul(t, wgt[v][1]))])
        top == MaxAbs1(mag)
    IN \A v \in 1..n :
        IF v - 1 \in fixed THEN RVNear(Y[v], X[v], "1/1000000000000", "1/1000000000000")
        ELSE \A k \in 1..Len(X[v]) :
            RLe(RAbs(RAdd(RMul(m[v], RSub(Y[v][k], X[v][k])), RMul(t, pull[v][k]))), RAdd(RMul(rtol, mag[v]), RMul("1/1000000000000", top)))
AvgError(F, T, Y) == RDiv(RSqrt(Dot2(Res(F, T, Y), Res(F, T, Y)), K), Len(T))
\* ---- control: c = [its, counter, best, h, minh, rc]; p: tol, mi (iterations allowed), rs (resamplings allowed);
\* k1, k2: rounds without progress before refining and before giving up.  The allowed outcomes.
RoundNo(c, err, met, p, k1, k2) ==
    LET lim == RAdd(err, RMul("1/1000", p.tol))
        tie == c.best # "inf" /\ RNear(lim, c.best, "0", "1/100000000000000")
        can == IF tie THEN {TRUE, FALSE} ELSE {c.best # "inf" /\ RLe(c.best, lim)}
        after(stall) ==
            LET a == IF stall THEN [c EXCEPT !.counter = @ + 1] ELSE [c EXCEPT !.counter = 0, !.best = err]
                slow == a.counter > k1
                fine == slow /\ RLt(c.minh, c.h)
                b == IF fine THEN [a EXCEPT !.counter = 0, !.best = "inf"] ELSE a
                d == IF slow THEN [b EXCEPT !.h = RMax(RMul(Half, @), c.minh)] ELSE b
                end == d.counter > k2 \/ met
            IN IF end /\ c.rc >= p.rs THEN [c |-> d, done |-> TRUE, kept |-> fine, again |-> FALSE, early |-> TRUE]
               ELSE LET g == IF end THEN [d EXCEPT !.counter = 0, !.best = "inf", !.rc = @ + 1] ELSE d
                    IN [c |-> [g EXCEPT !.its = @ + 1], done |-> g.its + 1 >= p.mi, kept |-> fine, again |-> end, early |-> FALSE]
    IN {after(s) : s \in can}
Control(c, err, met, p, k1, k2) ==
    IF c.its >= p.mi THEN {[c |-> c, done |-> TRUE, kept |-> FALSE, again |-> FALSE, early |-> TRUE]}
    ELSE RoundNo(c, err, met, p, k1, k2)
\* ---- curves
Outs(F, v) == {i \in 1..Len(F) : F[i][1] = v}
Ins(F, v) == {i \in 1..Len(F) : F[i][2] = v}
CurveOk(n, F) ==
    /\ \A i \in 1..Len(F) : F[i][1] \in 0..(n - 1) /\ F[i][2] \in 0..(n - 1) /\ F[i][1] # F[i][2]
    /\ \A v \in 0..(n - 1) : Cardinality(Outs(F, v)) <= 1 /\ Cardinality(Ins(F, v)) <= 1 /\ Outs(F, v) \cup Ins(F, v) # {}
Starts(n, F) == {v \in 0..(n - 1) : Ins(F, v) = {}}
Stops(n, F) == {v \in 0..(n - 1) : Outs(F, v) = {}}
RECURSIVE Spread(_, _, _)
Spread(F, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET nxt == UNION {{F[i][1], F[i][2]} : i \in {j \in 1..Len(F) : {F[j][1], F[j][2]} \cap todo # {}}} \ seen IN Spread(F, nxt, seen \cup nxt)
SetMinOf(A) == CHOOSE x \in A : \A y \in A : x <= y
RECURSIVE PiecesFrom(_, _)
PiecesFrom(F, left) == IF left = {} THEN 0 ELSE LET v == SetMinOf(left)  s == Spread(F, {v}, {v}) IN 1 + PiecesFrom(F, left \ s)
Pieces(n, F) == PiecesFrom(F, 0..(n - 1))
\* elements with a corner in common with those in A
Ring(F, A) == LET vs == UNION {{F[i][j] : j \in 1..Len(F[i])} : i \in A} IN {i \in 1..Len(F) : \E j \in 1..Len(F[i]) : F[i][j] \in vs}
\* ---- remeshing of a curve: what is remeshed and what must stay
VertsOf(F, A) == UNION {{F[i][j] : j \in 1..Len(F[i])} : i \in A}
ActiveOf(F, bad, sensitive) == LET a == Ring(F, Ring(F, bad)) IN IF sensitive /\ bad # {} /\ a # {} THEN a ELSE 1..Len(F)
PinnedOf(n, F, bad, p) ==
    LET act == ActiveOf(F, bad, p.sensitive)
        ends == {v \in VertsOf(F, act) : Outs(F, v) \cap act = {} \/ Ins(F, v) \cap act = {}}
        keep == IF p.sensitive /\ bad # {} THEN {}
                ELSE IF p.aggressive THEN (0..(n - 1)) \ VertsOf(F, bad) ELSE VertsOf(F, (1..Len(F)) \ bad)
    IN ends \cup keep \cup ((0..(n - 1)) \ VertsOf(F, act))
SegLen2(X, f) == D2(X[f[1] + 1], X[f[2] + 1])
LongIn(X, F, A, h) == {i \in A : RLt(RMul(RMul("7/5", h), RMul("7/5", h)), SegLen2(X, F[i]))}
ShortIn(X, F, A, pin, h) == {i \in A : RLt(SegLen2(X, F[i]), RMul(RMul("7/10", h), RMul("7/10", h))) /\ ~(F[i][1] \in pin /\ F[i][2] \in pin)}
Tight(X, F, A, h) == \E i \in A : \E c \in {"7/5", "7/10"} : RNear(SegLen2(X, F[i]), RMul(RMul(c, h), RMul(c, h)), "0", "1/1000000000")
OnCurve(u, X, F, eps) == RLe(NearestOf(X, F, u)[2], RMul(eps, eps))
HasPoint(Y, x, eps) == \E i \in 1..Len(Y) : RVNear(Y[i], x, eps, "0")
HasEdge(Y, G, a, b, eps) == \E i \in 1..Len(G) : RVNear(Y[G[i][1] + 1], a, eps, "0") /\ RVNear(Y[G[i][2] + 1], b, eps, "0")
=============================================================================
