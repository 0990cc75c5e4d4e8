----------------------------- MODULE MC_Spheres -----------------------------
(* Exact flow steps of small curves for all small sets of samples: a step has *)
(* one solution, never increases the energy of the constraints it uses, keeps *)
(* what is fixed, and does not move a mesh that touches every sphere.         *)
EXTENDS Spheres, LinAlg, Json
CONSTANT Pick
VARIABLES m, u, s, p, lvl
vars == <<m, u, s, p, lvl>>
N2(x, y) == <<RNum(x), RNum(y)>>
Meshes == << [X |-> <<N2(0, 0), N2(4, 0), N2(0, 3)>>, F |-> <<<<0, 1>>, <<1, 2>>, <<2, 0>>>>, bd |-> {}],
             [X |-> <<N2(-1, -1), N2(1, -1), N2(1, 1), N2(-1, 1)>>, F |-> <<<<0, 1>>, <<2, 3>>, <<1, 2>>, <<3, 0>>>>, bd |-> {}],
             [X |-> <<N2(0, 0), N2(2, 0), N2(2, 2), N2(5, 2)>>, F |-> <<<<0, 1>>, <<1, 2>>, <<2, 3>>>>, bd |-> {0, 3}] >>
Spots == <<N2(0, 0), N2(2, 1), N2(3, 3), N2(-1, 2), N2(1, -2)>>
Vals == <<"1", "-1", "2", "1/2">>
P0 == [tol |-> "1/200", io |-> TRUE, clamp |-> "inf", pseudo |-> FALSE, linesearch |-> TRUE, mint |-> "1/1000000", maxt |-> "50", dt |-> "10", fix |-> FALSE]
Ps == << P0, [P0 EXCEPT !.io = FALSE], [P0 EXCEPT !.linesearch = FALSE, !.fix = TRUE], [P0 EXCEPT !.clamp = "1", !.pseudo = TRUE] >>
X == Meshes[m].X
F == Meshes[m].F
n == Len(X)
U == <<Spots[u[1]], Spots[u[2]]>>
SV == <<Vals[s[1]], Vals[s[2]]>>
q == Ps[p]
Fixed == IF q.fix THEN Meshes[m].bd ELSE {}
T == Touches(X, F, U, SV, q)
\* the step as a linear system; fixed rows are replaced by identities
System(t) ==
    LET ms == Masses(X, F)
        row(v) == IF v - 1 \in Fixed THEN [j \in 1..n |-> IF j = v THEN "1" ELSE "0"]
                  ELSE TLCEval([j \in 1..n |-> RAdd(IF j = v THEN ms[v] ELSE "0",
                        RMul(t, RDiv(RSum([k \in 1..Len(T) |-> RMul(Weight(F, T[k], v), Weight(F, T[k], j))]), Len(T))))])
    IN TLCEval([v \in 1..n |-> row(v)])
Rhs(t) == LET ms == Masses(X, F)  c == Pulls(F, T, [k \in 1..Len(T) |-> T[k].to], n) IN
    TLCEval([v \in 1..n |-> IF v - 1 \in Fixed THEN X[v] ELSE RVAdd(RVScale(ms[v], X[v]), RVScale(t, c[v]))])
Sol == LET t == Step(X, F, T, q) IN [t |-> t, Y |-> SolveLin(System(t), Rhs(t))]
Cheap == (m + u[1] + 2 * u[2] + 3 * s[1] + s[2] + p) % Pick = 0
Init == /\ m \in 1..Len(Meshes) /\ u \in {<<1, 1>>} /\ s = <<1, 1>> /\ p = 1 /\ lvl = 0
Choose == /\ lvl = 0
          /\ u' \in {<<a, b>> : a, b \in 1..Len(Spots)} /\ u'[1] < u'[2]
          /\ s' \in {<<a, b>> : a, b \in 1..Len(Vals)}
          /\ p' \in 1..Len(Ps) /\ lvl' = 1 /\ UNCHANGED m
Next == Choose
Spec == Init /\ [][Next]_vars
Tiny(x) == RLe(RAbs(x), "1/1000000000000000")
Solved == (lvl = 1 /\ Cheap) =>
    LET r == Sol  Y == r.Y IN
    /\ Y # << >>
    /\ FlowOk(X, F, T, Y, r.t, Fixed, "1/1000000000000")
    /\ RLe(Energy(F, T, Y), RAdd(Energy(F, T, X), "1/1000000000000"))
    /\ RLe(q.mint, IF q.linesearch THEN r.t ELSE q.dt)
    /\ ((\A k \in 1..Len(T) : \A j \in 1..2 : Tiny(Res(F, T, X)[k][j])) => \A v \in 1..n : RVNear(Y[v], X[v], "1/1000000000000", "0"))
    \* the judge tells a wrong step from the right one
    /\ (~Tiny(Energy(F, T, X)) => ~FlowOk(X, F, T, [Y EXCEPT ![2] = RVAdd(@, <<"1/1000", "0">>)], r.t, Fixed, "1/100000000"))
\* every target lies on the sphere of its sample, along the line to the mesh
OnSphere == lvl = 1 => \A k \in 1..Len(T) :
    \/ RLe(NearestOf(X, F, U[k])[2], RMul(q.tol, q.tol))
    \/ RNear(D2(T[k].to, U[k]), RMul(SV[k], SV[k]), "1/1000000000000", "0")
Emit == (lvl = 1 /\ Cheap) => PrintT("GEN " \o ToJson([X |-> X, F |-> F, U |-> U, S |-> SV, p |-> q]))
=============================================================================
