-------------------------------- MODULE Arcs --------------------------------
(* Signed distances as spheres: the sample U[i] (1-based here) says that no   *)
(* point of the surface is nearer than |s_i|.  A cloud of points is good when *)
(* every point sits on its own sphere and inside no other one.                *)
EXTENDS DistGeo, Integers, Sequences, FiniteSets, TLC
Sq(x) == RMul(x, x)
Rad(S) == [i \in 1..Len(S) |-> RAbs(S[i])]
\* squared radii below which a point counts as inside, for a tolerance
Cores(R, slack) == [i \in 1..Len(R) |-> LET x == RSub(R[i], slack) IN IF RLe(x, "0") THEN "0" ELSE Sq(x)]
Outside(p, U, core, J) == \A j \in J : RLe(core[j], D2(p, U[j]))
OnSphere(p, u, r, eps) == LET d == D2(p, u) IN /\ RLe(Sq(RMax("0", RSub(r, eps))), d) /\ RLe(d, Sq(RAdd(r, eps)))
\* the normal of a point of the cloud: the gradient of the distance
NormalOk(p, n, u, s, eps) == LET r == RAbs(s) IN
    /\ RNear(RDot(n, n), "1", eps, "0")
    /\ RLt(RMul("1000000", eps), r) => \A c \in 1..Len(p) : RLe(RAbs(RSub(RMul(s, n[c]), RSub(u[c], p[c]))), eps)
(* how many candidates one pass proposes for a sphere that has k points       *)
Candidates(kind, k, most) ==
    IF k = 0 THEN 1..1
    ELSE CASE kind = "cross"   -> {1 + (IF k < most - 1 THEN k ELSE most - 1)}
           [] kind = "graze"   -> {1 + (IF k - 1 < most - 1 THEN k - 1 ELSE most - 1)}
           [] kind = "far"     -> {1}
           [] kind = "tangent" -> {k}
=============================================================================
