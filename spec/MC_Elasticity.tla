---------------------------- MODULE MC_Elasticity ---------------------------
(* Exact implicit steps of small meshes under all short schedules of loads,   *)
(* clamps and step sizes: each step has one solution, kept displacements are  *)
(* kept; rigid motions carry no energy; without loads and clamps the energy   *)
(* never grows and the linear momentum stays; the forces come from an energy. *)
EXTENDS Elasticity, Json
CONSTANT Depth
VARIABLES mesh, mat, u, v, k, log
vars == <<mesh, mat, u, v, k, log>>
Meshes == << [X |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>>>, F |-> <<<<0, 1, 2>>>>],
             [X |-> <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 4>>>>, F |-> <<<<0, 1, 2>>, <<2, 3, 0>>>>],
             [X |-> <<<<0, 0>>, <<4, 0>>, <<0, 4>>, <<2, 2>>, <<4, 4>>>>, F |-> <<<<0, 1, 3>>, <<0, 3, 2>>, <<3, 1, 4>>, <<2, 3, 4>>>>] >>
Mats == << [K |-> "2", mu |-> "3/2"], [K |-> "1", mu |-> "3/4"] >>
MX == TLCEval([q \in 1..Len(Meshes) |-> TLCEval([i \in 1..Len(Meshes[q].X) |-> <<RNum(Meshes[q].X[i][1]), RNum(Meshes[q].X[i][2])>>])])
MAr == TLCEval([q \in 1..Len(Meshes) |-> TLCEval([i \in 1..Len(Meshes[q].F) |-> AreaOf(MX[q], Meshes[q].F[i])])])
MMass == TLCEval([q \in 1..Len(Meshes) |-> MassTrip(MX[q], Meshes[q].F, "barycentric")])
X == MX[mesh]
F == Meshes[mesh].F
n == Len(X)
MLame == TLCEval([q \in 1..Len(Mats) |-> Lame(Mats[q].K, Mats[q].mu)])
m == MLame[mat]
Ar == MAr[mesh]
Mass == MMass[mesh]
MV1(x) == RSpMV(Mass, n, x)
Field(fx(_), fy(_)) == <<[i \in 1..n |-> RNum(fx(i))], [i \in 1..n |-> RNum(fy(i))]>>
Starts == << Field(LAMBDA i : 0, LAMBDA i : 0), Field(LAMBDA i : IF i = 1 THEN 1 ELSE 0, LAMBDA i : IF i = 2 THEN -1 ELSE 0), Field(LAMBDA i : (i * i) % 3, LAMBDA i : i % 2) >>
Loads == << Field(LAMBDA i : 0, LAMBDA i : 0), Field(LAMBDA i : 0, LAMBDA i : -2), Field(LAMBDA i : IF i = n THEN 4 ELSE 0, LAMBDA i : 0) >>
Clamps == << << >>, <<1>>, <<2, 1>> >>
Dts == <<"1/2", "2">>
ZeroF == Loads[1]
\* the linear system of a step, x-block then y-block, by columns of the operator
Stack(w) == w[1] \o w[2]
Unit1(j) == [i \in 1..(2 * n) |-> IF i = j THEN "1" ELSE "0"]
Split(x) == <<SubSeq(x, 1, n), SubSeq(x, n + 1, 2 * n)>>
OpOf(q, t, dt) == LET N == 2 * Len(MX[q])
        Z == [a \in 1..2 |-> [i \in 1..Len(MX[q]) |-> "0"]]
        E(j) == LET w == [i \in 1..N |-> IF i = j THEN "1" ELSE "0"] IN <<SubSeq(w, 1, N \div 2), SubSeq(w, N \div 2 + 1, N)>>
        C == TLCEval([j \in 1..N |-> TLCEval(Stack(Imbalance(MX[q], Meshes[q].F, MAr[q], MLame[t], MMass[q], dt, E(j), Z, Z, Z)))])
    IN MT(C, N, N)
Ops == TLCEval([q \in 1..Len(Meshes) |-> TLCEval([t \in 1..Len(Mats) |-> TLCEval([d \in 1..2 |-> OpOf(q, t, Dts[d])])])])
StepSol(d, f, c, bc) ==
    LET A == Ops[mesh][mat][d]
        r == TLCEval(Stack(Imbalance(X, F, Ar, m, Mass, Dts[d], ZeroF, u, v, f)))
        kk == [q \in 1..(2 * Len(c)) |-> IF q <= Len(c) THEN c[q] ELSE n + c[q - Len(c)]]
        W == TLCEval([i \in 1..(2 * n) |-> IF \E q \in 1..Len(kk) : kk[q] = i THEN Unit1(i) ELSE A[i]])
        b == TLCEval([i \in 1..(2 * n) |-> IF \E q \in 1..Len(kk) : kk[q] = i THEN <<bc[CHOOSE q \in 1..Len(kk) : kk[q] = i]>> ELSE <<RNeg(r[i])>>])
    IN Split(MCol(SolveLin(W, b), 1))
Init == mesh \in 1..Len(Meshes) /\ mat \in 1..Len(Mats) /\ (mesh = 3 => mat = 2) /\ k = 0
        /\ \E a \in 1..Len(Starts), b \in 1..Len(Starts) : (a + b) % 2 = 1 /\ (mesh = 1 => a < 3) /\ u = Starts[a] /\ v = Starts[b] /\ log = <<a, b>>
Bc(c) == [q \in 1..(2 * Len(c)) |-> IF q % 2 = 1 THEN "0" ELSE "1/2"]
Step(d, lo, cl) ==
    /\ k < Depth /\ k' = k + 1 /\ log' = log \o <<d, lo, cl>>
    /\ \E w \in {StepSol(d, Loads[lo], Clamps[cl], Bc(Clamps[cl]))} :
       u' = w /\ v' = TLCEval([a \in 1..2 |-> TLCEval(RVScale(RDiv("1", Dts[d]), RVSub(w[a], u[a])))])
    /\ UNCHANGED <<mesh, mat>>
Next == \E d \in 1..2, lo \in 1..3, cl \in 1..3 : Step(d, lo, cl)
Spec == Init /\ [][Next]_vars
\* ---- laws (the gathered forces are rounded to 2^-240)
Zero(x) == RLe(RAbs(x), "1/1000000000000000000000000000000")
Energy(uu, vv) == RMul("1/2", RAdd(Pair(X, F, Ar, m, uu, uu), RAdd(RDot(vv[1], MV1(vv[1])), RDot(vv[2], MV1(vv[2])))))
Momentum(vv) == <<RSum(MV1(vv[1])), RSum(MV1(vv[2]))>>
Turn == <<[i \in 1..n |-> RNeg(X[i][2])], [i \in 1..n |-> X[i][1]]>>
Shift(a) == [b \in 1..2 |-> [i \in 1..n |-> IF a = b THEN "1" ELSE "0"]]
Rigid == {Turn, Shift(1), Shift(2)}
InPlace == \A r \in Rigid : \A i \in 1..Len(F) : Strain(X, F[i], r) = <<"0", "0", "0">>
Psd == RSgn(Pair(X, F, Ar, m, u, u)) >= 0
Symmetric == Pair(X, F, Ar, m, u, v) = Pair(X, F, Ar, m, v, u)
Gathered == \E w \in {Forces(X, F, Ar, m, u)} : Zero(RSub(Pair(X, F, Ar, m, u, v), RAdd(RDot(w[1], v[1]), RDot(w[2], v[2]))))
Mises == \A i \in 1..Len(F) : LET t == Stress(m, Strain(X, F[i], u)) IN RSgn(Mises2(t)) >= 0 /\ (t[2] = "0" /\ t[3] = "0" => Mises2(t) = RMul(t[1], t[1]))
Tiny == "1/1000000000000000000000000000000"
FreeStep == (log'[Len(log') - 1] = 1 /\ log'[Len(log')] = 1) => /\ RLe(Energy(u', v'), RAdd(Energy(u, v), Tiny)) /\ (\A a \in 1..2 : Zero(RSub(Momentum(v')[a], Momentum(v)[a])))
Balanced == LET d == Dts[log'[Len(log') - 2]]  c == Clamps[log'[Len(log')]]  bc == Bc(c) IN
    \E b \in {Imbalance(X, F, Ar, m, Mass, d, u', u, v, Loads[log'[Len(log') - 1]])} :
      \A i \in 1..n : IF \E q \in 1..Len(c) : c[q] = i
                      THEN LET q == CHOOSE q \in 1..Len(c) : c[q] = i IN u'[1][i] = bc[q] /\ u'[2][i] = bc[Len(c) + q]
                      ELSE Zero(b[1][i]) /\ Zero(b[2][i])
Laws == [][FreeStep /\ Balanced]_vars
Emit == k = Depth => PrintT("GEN " \o ToJson([mesh |-> mesh, mat |-> mat, log |-> log]))
=============================================================================
