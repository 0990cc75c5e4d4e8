------------------------------ MODULE Tr_Subdiv ------------------------------
(* P08.  A history subdivides one mesh step by step ("subdivide", iters = 1,  *)
(* each on the previous result) and then asks for the same number of steps in *)
(* one call ("iterate").  State: the faces and vertices of the last step and  *)
(* the images of the probe vectors under the product of the step matrices.    *)
EXTENDS Subdiv, Outcome
VARIABLES h, l, st, bad

Tol == "1/1000000000000"
Rows(e, n) == LET K == Idx(e) IN TLCEval([r \in 0..(n - 1) |-> {k \in K : e[k][1] = r}])
Stencil(w, X, d, sc) == [c \in 1..d |-> SumW([v \in DOMAIN w |-> RMul(w[v], X[v + 1][c])], DOMAIN w)]
MaxAbs(X) == LET f[i \in 0..Len(X)] == IF i = 0 THEN "0" ELSE RMax(f[i-1], LET g[j \in 0..Len(X[i])] == IF j = 0 THEN "0" ELSE RMax(g[j-1], RAbs(X[i][j])) IN g[Len(X[i])]) IN f[Len(X)]

StepJ(s, e) ==
    LET F == e.in.F  n == e.in.n  w == Len(F[1])  hasV == e.in.hasV  mat == e.in.mat
        inc == IF w = 3 THEN IncOf(F) ELSE TLCEval([S \in {Und(F[i]) : i \in Idx(F)} |-> {i \in Idx(F) : Und(F[i]) = S}])
        D == DOMAIN inc
        E == Cardinality(D)
        nu == n + E
        mu == (IF w = 3 THEN 4 ELSE 2) * Len(F)
    IN
    IF e.out.t # "seq" \/ Len(e.out.a) # (IF mat THEN 3 ELSE 2) THEN Stop(s, {"subdivide: number of results"})
    ELSE LET OV == e.out.a[1]  OF == e.out.a[2] IN
    IF ~IsArr(OF, "i", <<mu, w>>) THEN Stop(s, {"subdivide: faces shape"})
    ELSE IF hasV # (OV.t # "none") \/ (hasV /\ ~(OV.t = "arr" /\ OV.sh = <<nu, Len(e.in.V[1])>>)) THEN Stop(s, {"subdivide: one new vertex per edge"})
    ELSE IF \E i \in 1..mu : \E j \in 1..w : OF.a[i][j] < 0 \/ OF.a[i][j] >= nu THEN Stop(s, {"subdivide: index out of range"})
    ELSE
    LET G == OF.a
        \* which old vertices a new vertex is joined to
        pairs == UNION {{<<x, v>> : x \in {y \in Range(G[i]) : y >= n}, v \in {y \in Range(G[i]) : y < n}} : i \in 1..mu}
        ends == TLCEval([x \in n..(nu - 1) |-> {p[2] : p \in {q \in pairs : q[1] = x}}])
        biject == {ends[x] : x \in n..(nu - 1)} = D
    IN IF ~biject THEN Stop(s, {"subdivide: new vertices do not correspond one to one to the edges"})
    ELSE
    LET mid == TLCEval([S \in D |-> CHOOSE x \in n..(nu - 1) : ends[x] = S])
        want == IF w = 3 THEN RefinedSet(F, mid) ELSE RefinedSegs(F, mid)
        bnd == {S \in D : Cardinality(inc[S]) = 1}
        loop == e.in.method = "loop"
        nbs == IF loop THEN TLCEval([v \in 0..(n - 1) |-> NbrsIn(D, v)]) ELSE <<>>
        bns == IF loop THEN TLCEval([v \in 0..(n - 1) |-> NbrsIn(bnd, v)]) ELSE <<>>
        W(x) == IF x >= n THEN IF loop THEN LoopEdge(F, inc, ends[x]) ELSE MidStencil(ends[x])
                ELSE IF loop THEN LoopVertex(x, nbs[x], bns[x]) ELSE [v \in {x} |-> "1"]
        wt == TLCEval([x \in 0..(nu - 1) |-> W(x)])
        d == IF hasV THEN Len(e.in.V[1]) ELSE 0
        atol == IF hasV THEN RMul(Tol, MaxAbs(e.in.V)) ELSE "0"
        Sp == IF mat THEN e.out.a[3] ELSE [t |-> "none"]
        okS == mat => IsSp(Sp, <<nu, n>>)
        rows == IF mat /\ okS THEN Rows(Sp.e, nu) ELSE <<>>
        b == Failing({
          <<"subdivide: faces are not the refinement of the old faces", {Canon(G[i]) : i \in 1..mu} = want /\ Cardinality(want) = mu>>,
          <<"subdivide: matrix shape", okS>>,
          <<"subdivide: vertex positions", hasV => \A x \in 0..(nu - 1) : RVNear(OV.a[x + 1], Stencil(wt[x], e.in.V, d, 0), atol, "0")>>,
          <<"subdivide: old vertices moved", (hasV /\ ~loop) => \A x \in 1..n : OV.a[x] = e.in.V[x]>>})
          \cup IF ~(mat /\ okS) THEN {} ELSE Failing({
          <<"subdivide: matrix pattern", \A x \in 0..(nu - 1) : {Sp.e[k][2] : k \in rows[x]} = DOMAIN wt[x]>>,
          <<"subdivide: matrix weights", \A x \in 0..(nu - 1) : \A k \in rows[x] :
              Sp.e[k][2] \in DOMAIN wt[x] => RNear(Sp.e[k][3], wt[x][Sp.e[k][2]], Tol, "0")>>})
        P2 == IF mat /\ okS THEN [k \in Idx(s.P) |-> RSpMV(Sp.e, nu, s.P[k])] ELSE s.P
    IN V([F |-> G, V |-> IF hasV THEN OV.a ELSE <<>>, P |-> P2, X |-> s.X], b)

\* iters = k in one call equals the k steps before; iters = 0 gives copies
IterJ(s, e) ==
    LET mat == e.in.mat  hasV == e.in.hasV  nu == Len(s.P[1]) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # (IF mat THEN 3 ELSE 2) THEN {"iterate: number of results"}
    ELSE LET OV == e.out.a[1]  OF == e.out.a[2] IN
    IF ~IsArr(OF, "i", <<Len(s.F), Len(s.F[1])>>) THEN {"iterate: faces shape"}
    ELSE IF hasV # (OV.t # "none") \/ (hasV /\ ~(OV.t = "arr" /\ OV.sh = <<Len(s.V), Len(s.V[1])>>)) THEN {"iterate: vertex shape"}
    ELSE IF mat /\ ~(e.out.a[3].t = "sp" /\ e.out.a[3].sh = <<nu, Len(s.X[1])>>) THEN {"iterate: matrix shape"}
    ELSE LET atol == IF hasV THEN RMul(Tol, MaxAbs(s.V)) ELSE "0" IN Failing({
       <<"iterate: faces differ from single steps", OF.a = s.F>>,
       <<"iterate: vertices differ from single steps", hasV => \A x \in Idx(s.V) : RVNear(OV.a[x], s.V[x], atol, "0")>>,
       <<"iterate: matrix is not the product of the step matrices",
           mat => \A k \in Idx(s.X) : RVNear(RSpMV(e.out.a[3].e, nu, s.X[k]), s.P[k], "1/1000000000", "0")>>})

Jdg(s, e) ==
    CASE e.op = "start" -> Ok([F |-> e.in.F, V |-> IF e.in.hasV THEN e.in.V ELSE <<>>, P |-> e.in.X, X |-> e.in.X])
      [] e.op = "subdivide" -> StepJ(s, e)
      [] e.op = "iterate" -> V(s, IterJ(s, e))
S0(hist) == [F |-> <<>>, V |-> <<>>, P |-> <<>>, X |-> <<>>]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
