---------------------------- MODULE Tr_Elasticity ---------------------------
(* P32: recorded stiffness assemblies and sequences of implicit steps.        *)
(* State: displacement and velocity after the last step of this history.      *)
EXTENDS Elasticity, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000000"
Fld(x, n) == <<SubSeq(x, 1, n), SubSeq(x, n + 1, 2 * n)>>
Cat(w) == w[1] \o w[2]
AreasOf(i) == IF i.areas # << >> THEN i.areas ELSE TLCEval([q \in 1..Len(i.F) |-> AreaOf(i.X, i.F[q])])
MassOf(i) == IF i.hasM THEN i.M ELSE MassTrip(i.X, i.F, "voronoi")
\* the largest |entry| of the stiffness: a bound for errors of products with vectors of size one
Near(x, y, sc) == Len(x) = Len(y) /\ \A q \in 1..Len(x) : RNear(x[q], y[q], RMul(Tol, sc), "0")
StiffJ(e) ==
    LET i == e.in  n == Len(i.X)  f == Len(i.F)  o == e.out.a  nm == "linear_elasticity_stiffness: " IN
    IF ~(IsSp(o[1], <<2 * n, 2 * n>>) /\ IsSp(o[2], <<3 * f, 3 * f>>) /\ IsSp(o[3], <<3 * f, 2 * n>>) /\ IsSp(o[4], <<3 * f, 3 * f>>) /\ IsSp(o[5], <<2 * n, 2 * n>>))
    THEN {nm \o "shapes"}
    ELSE LET m == Lame(i.K, i.mu)  ar == AreasOf(i)  sc == MaxTrip(o[1].e)  MM == MassOf(i)
             Kw(w) == RSpMV(o[1].e, 2 * n, w)
             size == RAdd("1", MaxAbs2(i.X))
         IN Failing({
            <<nm \o "stiffness does not give the elastic forces", \A w \in Range(i.U) : Near(Kw(w), Cat(Forces(i.X, i.F, ar, m, Fld(w, n))), RMul(sc, RMul("10", RAdd("1", MaxAbs1(w)))))>>,
            <<nm \o "stiffness not symmetric", \A a, b \in Range(i.U) : RNear(RDot(a, Kw(b)), RDot(b, Kw(a)), RMul(RMul(Tol, sc), RMul("100", RMul(RAdd("1", MaxAbs1(a)), RAdd("1", MaxAbs1(b))))), "0")>>,
            <<nm \o "negative energy", \A w \in Range(i.U) : RLe(RNeg(RMul(Tol, RMul(sc, RMul("100", RMul(RAdd("1", MaxAbs1(w)), RAdd("1", MaxAbs1(w))))))), RDot(w, Kw(w)))>>,
            <<nm \o "a rigid motion is resisted", \A w \in {[q \in 1..(2 * n) |-> IF q <= n THEN "1" ELSE "0"], [q \in 1..(2 * n) |-> IF q <= n THEN "0" ELSE "1"],
                    [q \in 1..(2 * n) |-> IF q <= n THEN RNeg(i.X[q][2]) ELSE i.X[q - n][1]]} : Near(Kw(w), [q \in 1..(2 * n) |-> "0"], RMul(RMul(sc, size), "10"))>>,
            <<nm \o "strain", \A w \in Range(i.U) : LET g == RSpMV(o[3].e, 3 * f, w)  s3 == MaxTrip(o[3].e)
                                                       s == TLCEval([q \in 1..f |-> Strain(i.X, i.F[q], Fld(w, n))])
                   IN Near(g, [q \in 1..(3 * f) |-> s[((q - 1) % f) + 1][((q - 1) \div f) + 1]], RMul(s3, RMul("10", RAdd("1", MaxAbs1(w)))))>>,
            <<nm \o "constitutive matrix", \A c \in 1..3 : LET z == [q \in 1..(3 * f) |-> IF (q - 1) \div f = c - 1 THEN RNum(q) ELSE "0"]
                   IN Near(RSpMV(o[2].e, 3 * f, z), TLCEval([q \in 1..(3 * f) |-> RMul(RNum(((q - 1) % f) + 1 + (c - 1) * f), Stress(m, [b \in 1..3 |-> IF b = c THEN "1" ELSE "0"])[((q - 1) \div f) + 1])]), RMul(MaxTrip(o[2].e), RNum(3 * f)))>>,
            <<nm \o "element areas", Near(RSpMV(o[4].e, 3 * f, [q \in 1..(3 * f) |-> "1"]), [q \in 1..(3 * f) |-> ar[((q - 1) % f) + 1]], MaxAbs1(ar)) /\ \A q \in 1..Len(o[4].e) : o[4].e[q][1] = o[4].e[q][2]>>,
            <<nm \o "mass matrix", \A w \in Range(i.U) : Near(RSpMV(o[5].e, 2 * n, w), RSpMV(MM, n, Fld(w, n)[1]) \o RSpMV(MM, n, Fld(w, n)[2]), RMul(MaxTrip(MM), RMul("10", RAdd("1", MaxAbs1(w)))))>>,
            <<nm \o "argument modified", i.same>>})
\* one implicit step from the state, or from the displacement and velocity given (first step)
StepJ(s, e) ==
    LET i == e.in  n == Len(i.X)  f == Len(i.F)  nm == "linear_elasticity: " IN
    IF ~(Len(e.out.a) = 2 /\ IsArr(e.out.a[1], "f", <<2 * n>>) /\ IsArr(e.out.a[2], "f", <<f>>)) THEN [bad |-> {nm \o "shapes"}, st |-> s, stop |-> TRUE]
    ELSE LET u0 == IF s = << >> \/ i.restart THEN i.U0 ELSE s.u
             v0 == IF s = << >> \/ i.restart THEN i.V0 ELSE s.v
             x == e.out.a[1].a  u == Fld(x, n)  m == TLCEval(Lame(i.K, i.mu))  ar == TLCEval(AreasOf(i))  MM == TLCEval(MassOf(i))
             b == TLCEval(Imbalance(i.X, i.F, ar, m, MM, i.dt, u, u0, v0, i.f))
             fix == {i.bb[q] + 1 : q \in 1..Len(i.bb)}
             sc == RAdd(RMul(MaxTrip(MM), RAdd(MaxAbs2(u0), RAdd(RMul(i.dt, MaxAbs2(v0)), RMul(RMul(i.dt, i.dt), MaxAbs2(i.f))))), RMul(i.asc, MaxAbs1(x)))
             sg == TLCEval([q \in 1..f |-> Mises2(Stress(m, Strain(i.X, i.F[q], u)))])
             ssc == RMul(i.ssc, RAdd(MaxAbs1(x), i.tiny))
         IN [bad |-> Failing({
               <<nm \o "step does not balance inertia, loads and elastic forces", \A a \in 1..2, q \in (1..n) \ fix : RNear(b[a][q], "0", RMul(Tol, RMul(sc, RNum(n))), "0")>>,
               <<nm \o "prescribed displacement not held", \A q \in 1..Len(i.bb), a \in 1..2 : REq(u[a][i.bb[q] + 1], i.bc[q][a])>>,
               <<nm \o "von Mises stress", \A q \in 1..f : LET g == e.out.a[2].a[q] IN RIsNum(g) /\ RSgn(g) >= 0 /\ RNear(RMul(g, g), sg[q], RMul(Tol, RMul(ssc, ssc)), Tol)>>,
               <<nm \o "argument modified", i.same>>}),
             st |-> [u |-> u, v |-> TLCEval([a \in 1..2 |-> [q \in 1..n |-> i.vnext[a][q]]])], stop |-> FALSE]
\* the caller's velocity is the difference quotient of the displacements
Jdg(s, e) == CASE e.op = "stiff" -> V(s, StiffJ(e)) [] e.op = "step" -> StepJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
