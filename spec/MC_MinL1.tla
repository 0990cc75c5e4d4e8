------------------------------ MODULE MC_MinL1 ------------------------------
(* A certified point is optimal: small problems in two unknowns, every point, *)
(* every subgradient of a lattice, against every feasible lattice competitor. *)
(* The linear term is chosen so that the point is stationary.                 *)
EXTENDS MinL1, Json
VARIABLES s
S(i) == RNum(i)
Ls == { <<<<0>>, <<0>>>>, <<<<1>>, <<-1>>>>, <<<<1>>, <<2>>>> }
Gs == { [d |-> 1, G |-> <<<<1, 0>>, <<0, 1>>>>], [d |-> 1, G |-> <<<<1, -1>>>>], [d |-> 1, G |-> <<<<2, 1>>, <<1, 0>>, <<0, -1>>>>],
        [d |-> 2, G |-> <<<<5, 0>>, <<0, 5>>>>], [d |-> 2, G |-> <<<<5, -5>>, <<0, 10>>>>] }
Cons == { [A |-> << >>, k |-> << >>], [A |-> <<<<1, 1>>>>, k |-> << >>], [A |-> << >>, k |-> <<2>>], [A |-> <<<<1, -2>>>>, k |-> << >>] }
Us == {<<0, 0>>, <<1, 0>>, <<0, -2>>, <<3, 4>>, <<1, 1>>, <<-1, 2>>, <<-3, -4>>, <<4, 3>>}
\* dual values of zero groups, in quarters (d = 1) or as multiples of a Pythagorean direction
Duals(d) == IF d = 1 THEN {<<"-1">>, <<"0">>, <<"1/4">>, <<"1">>} ELSE {<<"0", "0">>, <<"1/2", "-1/2">>, <<"3/5", "4/5">>}
Unit(v) == LET q == RSqrt(Sq(v), 8) IN [i \in 1..Len(v) |-> RDiv(v[i], q)]
Rat(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> S(M[i][j])]]
Init == s = << >>
Pick(D) == \E x \in D : s' = Append(s, x)
Next == CASE Len(s) = 0 -> Pick(Ls) [] Len(s) = 1 -> Pick(Gs) [] Len(s) = 2 -> Pick(Cons) [] Len(s) = 3 -> Pick(Us)
          [] Len(s) = 4 -> Pick(Duals(s[2].d)) [] Len(s) = 5 -> Pick({-1, 0, 2}) [] OTHER -> FALSE
Spec == Init /\ [][Next]_s
Done == Len(s) = 6
U == [i \in 1..2 |-> S(s[4][i])]
P0 == [n |-> 2, G |-> Rat(s[2].G), d |-> s[2].d, L |-> Rat(s[1]), A |-> Rat(s[3].A), k |-> s[3].k]
R == MV(P0.G, U)
Dual == LET f[g \in 0..(Len(P0.G) \div P0.d)] == IF g = 0 THEN << >>
                 ELSE f[g-1] \o (LET rg == Group(R, g, P0.d) IN IF RSgn(Sq(rg)) = 0 THEN s[5] ELSE Unit(rg)) IN f[Len(P0.G) \div P0.d]
Lam == [r \in 1..Len(P0.A) |-> S(s[6])]
Prob == LET qu == QU([L |-> P0.L], U) IN
    [n |-> 2, G |-> P0.G, d |-> P0.d, L |-> P0.L, A |-> P0.A, k |-> P0.k, b |-> MV(P0.A, U), y |-> [q \in 1..Len(P0.k) |-> U[P0.k[q]]],
     c |-> [i \in 1..2 |-> RNeg(RAdd(qu[i], RAdd(RDot(MCol(P0.G, i), Dual), RSum([r \in 1..Len(P0.A) |-> RMul(P0.A[r][i], Lam[r])]))))]]
Lattice == {<<S(i), S(j)>> : i \in (-5)..5, j \in (-5)..5}
Holds == Done => LET P == TLCEval(Prob)  D == TLCEval(Dual) IN
    Certified(P, U, D, Lam) =>
       /\ RLe(RAbs(RSub(Optimum(P, U, D), ObjUp(P, U))), "1/1000000000000000")
       /\ \A w \in Lattice : Satisfies(P, w, "0") => RLe(Optimum(P, U, D), ObjUp(P, w))
\* certificates exist (the construction is not vacuous)
Emit == (Done /\ Certified(Prob, U, Dual, Lam)) => PrintT("GEN " \o ToJson([P |-> Prob, u |-> U, s |-> Dual, lam |-> Lam]))
=============================================================================
