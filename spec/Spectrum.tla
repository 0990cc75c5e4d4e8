------------------------------ MODULE Spectrum ------------------------------
(* The Neumann Laplacian of a box of sides l: one mode per multi-index N of   *)
(* non-negative integers, with eigenvalue pi^2 * Weight(N) and eigenfunction  *)
(* prod_d cos(N_d pi x_d / l_d).  Weight grows strictly in every index, so    *)
(* the modes can be listed in order by a machine that keeps the set of modes  *)
(* listed so far and only ever looks at the frontier of that set.             *)
EXTENDS GridOps
K == 80
Weight(N, l) == RSum([d \in 1..Len(N) |-> LET q == RDiv(RNum(N[d]), l[d]) IN RMul(q, q)])
Down(N, d) == [N EXCEPT ![d] = @ - 1]
Up(N, d)   == [N EXCEPT ![d] = @ + 1]
Origin(dim) == [d \in 1..dim |-> 0]
Below(N) == {Down(N, d) : d \in {e \in 1..Len(N) : N[e] > 0}}
\* the modes that may come next after listing N, when T is what has been listed
Opened(N, T) == {M \in {Up(N, d) : d \in 1..Len(N)} : Below(M) \subseteq T}
Least(F, l, rel) ==
    LET wt == TLCEval([N \in F |-> Weight(N, l)])
        m == CHOOSE N \in F : \A M \in F : RLe(wt[N], wt[M]) IN
    {N \in F : RLe(wt[N], RMul(wt[m], RAdd("1", rel)))}
\* cos(n pi i/(g-1)): factor of mode n at node i of an axis with g nodes (one node: the left end)
Prod2(d, v) == LET f[k \in 0..d] == IF k = 0 THEN "1" ELSE RMul(f[k-1], v[k]) IN f[d]
Factor(n, i, g) == IF g = 1 THEN "1" ELSE RCos(RDiv(RMul(RPi(K), RNum(n * i)), RNum(g - 1)), K)
=============================================================================
