------------------------------ MODULE MC_Wind3 ------------------------------
(* Winding numbers of closed surfaces by signed crossings: one inside and     *)
(* zero outside of convex bodies, additive, odd under a change of             *)
(* orientation, the same along any axis permutation.                          *)
EXTENDS Winding, Integers, Sequences, FiniteSets, TLC
CONSTANTS R
VARIABLES b, q
P3(x) == <<ToString(x[1]), ToString(x[2]), ToString(x[3])>>
Tris(V, F) == TLCEval([k \in 1..Len(F) |-> [j \in 1..3 |-> P3(V[F[k][j] + 1])]])
Box == Tris(<<<<-2,-2,-2>>, <<2,-2,-2>>, <<2,2,-2>>, <<-2,2,-2>>, <<-2,-2,2>>, <<2,-2,2>>, <<2,2,2>>, <<-2,2,2>>>>,
        <<<<0,2,1>>, <<0,3,2>>, <<4,5,6>>, <<4,6,7>>, <<0,1,5>>, <<0,5,4>>, <<2,3,7>>, <<2,7,6>>, <<1,2,6>>, <<1,6,5>>, <<0,4,7>>, <<0,7,3>>>>)
Oct == Tris(<<<<3,0,0>>, <<-3,0,0>>, <<0,3,0>>, <<0,-3,0>>, <<0,0,3>>, <<0,0,-3>>>>, <<<<0,2,4>>, <<2,1,4>>, <<1,3,4>>, <<3,0,4>>, <<2,0,5>>, <<1,2,5>>, <<3,1,5>>, <<0,3,5>>>>)
Tet == Tris(<<<<-2,-2,-2>>, <<4,-2,-2>>, <<-2,4,-2>>, <<-2,-2,4>>>>, <<<<0,2,1>>, <<0,1,3>>, <<1,2,3>>, <<0,3,2>>>>)
Bodies == TLCEval(<<Box, Oct, Tet>>)
Init == b \in 1..3 /\ q = <<-R, -R, -R>>
Next == /\ UNCHANGED b
        /\ \/ q[1] < R /\ q' = <<q[1] + 1, q[2], q[3]>>
           \/ q[2] < R /\ q' = <<q[1], q[2] + 1, q[3]>>
           \/ q[3] < R /\ q' = <<q[1], q[2], q[3] + 1>>
Spec == Init /\ [][Next]_<<b, q>>
X == P3(q)
Level(t) == RSgn(RDot(RCross(RVSub(t[2], t[1]), RVSub(t[3], t[1])), RVSub(X, t[1])))
Inside == \A k \in 1..Len(Bodies[b]) : Level(Bodies[b][k]) < 0
Outside == \E k \in 1..Len(Bodies[b]) : Level(Bodies[b][k]) > 0
Flipped(ts) == [k \in 1..Len(ts) |-> <<ts[k][2], ts[k][1], ts[k][3]>>]
Rot(x) == <<x[2], x[3], x[1]>>
RotT(ts) == [k \in 1..Len(ts) |-> <<Rot(ts[k][1]), Rot(ts[k][2]), Rot(ts[k][3])>>]
Off == Inside \/ Outside
InsideOne == Off => Wind3(X, Bodies[b]) = IF Inside THEN 1 ELSE 0
Odd3 == Off => Wind3(X, Flipped(Bodies[b])) = -Wind3(X, Bodies[b])
Axes == Off => Wind3(Rot(X), RotT(Bodies[b])) = Wind3(X, Bodies[b])
Adds == Off => Wind3(X, Bodies[b] \o Bodies[1 + (b % 3)] \o Flipped(Bodies[1 + (b % 3)])) = Wind3(X, Bodies[b])
=============================================================================
