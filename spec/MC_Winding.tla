----------------------------- MODULE MC_Winding -----------------------------
(* Closed lattice walks and all query points of the half-lattice.             *)
EXTENDS Winding, Json
CONSTANTS N, M              \* vertices, lattice size
VARIABLES X, q, w
vv == <<X, q, w>>
Pt(x, y) == <<RNum(x), RNum(y)>>
\* vertices on even, queries on all coordinates
Vtx == {Pt(2 * x, 2 * y) : x \in 0..M, y \in 0..M}
Qs == {Pt(x, y) : x \in (-1)..(2*M+1), y \in {1, 2, 3}}
Init == X = <<Pt(0, 0)>> /\ q = <<>> /\ w = 0
Grow == Len(X) < N /\ (\E v \in Vtx : v # X[Len(X)] /\ X' = Append(X, v)) /\ UNCHANGED <<q, w>>
Off(p) == \A i \in 1..Len(X) : ~OnSeg(p, Loop(X)[i][1], Loop(X)[i][2])
Ask == Len(X) = N /\ q = <<>> /\ (\E p \in Qs : RLt(p[1], "0") /\ q' = p /\ w' = 0) /\ UNCHANGED X
\* the query moves right in half-lattice steps; w counts the crossings on the way
Move == /\ q # <<>> /\ RLt(q[1], RNum(2*M+1))
        /\ LET p == <<RAdd(q[1], "1"), q[2]>> IN q' = p /\ w' = WindE(p, Loop(X))
        /\ UNCHANGED X
Spec == Init /\ [][Grow \/ Ask \/ Move]_vv
Here == q # <<>> /\ Off(q)
Agree == Here => /\ WindE(q, Loop(X)) = WindE(Turn(q), TurnEs(Loop(X)))
                 /\ WindE(q, Loop(X)) = WindE(Turn(Turn(q)), TurnEs(TurnEs(Loop(X))))
                 /\ WindQ4(q, Loop(X)) = 4 * WindE(q, Loop(X))
Angles == Here => RNear(WindA(q, Loop(X)), RNum(WindE(q, Loop(X))), "1/1000000000000000", "0")
Parity == Here => (Odd(q, X) <=> WindE(q, Loop(X)) % 2 = 1)
Flip == Here => WindE(q, Loop(X)) = -WindE(q, [i \in 1..N |-> <<Loop(X)[i][2], Loop(X)[i][1]>>])
SimpleOne == (Here /\ Simple(X)) => WindE(q, Loop(X)) \in {-1, 0, 1}
OutsideZero == (q # <<>> /\ (q[1] = "-1" \/ q[1] = RNum(2*M+1))) => w = 0
Emit == (Len(X) = N /\ q = <<>>) => PrintT("GEN " \o ToJson([X |-> X, simple |-> Simple(X)]))
=============================================================================
