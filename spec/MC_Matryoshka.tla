--------------------------- MODULE MC_Matryoshka ----------------------------
(* In a convex body whose cut normal points along the upper and against the   *)
(* lower direction, the points that fit form a convex set; a copy about a     *)
(* fitting centre therefore fits up to one largest scale, which bisection     *)
(* brackets.  Scales are multiples of 1/Steps.                                *)
EXTENDS Matryoshka, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, Pick
VARIABLES b, q, best, n
N(x) == ToString(x)
P3(x) == <<N(x[1]), N(x[2]), N(x[3])>>
Box == [V |-> <<<<-4,-4,-4>>, <<4,-4,-4>>, <<4,4,-4>>, <<-4,4,-4>>, <<-4,-4,4>>, <<4,-4,4>>, <<4,4,4>>, <<-4,4,4>>>>,
        F |-> <<<<0,2,1>>, <<0,3,2>>, <<4,5,6>>, <<4,6,7>>, <<0,1,5>>, <<0,5,4>>, <<2,3,7>>, <<2,7,6>>, <<1,2,6>>, <<1,6,5>>, <<0,4,7>>, <<0,7,3>>>>]
Oct == [V |-> <<<<6,0,0>>, <<-6,0,0>>, <<0,6,0>>, <<0,-6,0>>, <<0,0,6>>, <<0,0,-6>>>>,
        F |-> <<<<0,2,4>>, <<2,1,4>>, <<1,3,4>>, <<3,0,4>>, <<2,0,5>>, <<1,2,5>>, <<3,1,5>>, <<0,3,5>>>>]
Tet == [V |-> <<<<-4,-4,-4>>, <<8,-4,-4>>, <<-4,8,-4>>, <<-4,-4,8>>>>, F |-> <<<<0,2,1>>, <<0,1,3>>, <<1,2,3>>, <<0,3,2>>>>]
Bodies == <<Box, Oct, Tet>>
Dirs == {<<0,0,1>>, <<1,0,1>>, <<0,1,2>>, <<1,1,1>>, <<-1,0,2>>}
Centres == {<<0,0,0>>, <<1,0,-1>>, <<-1,1,0>>}
Normals == {<<0,0,1>>, <<1,0,2>>, <<0,1,1>>}
Off == {-1, 0, 1}
All == [body : 1..3, c : Centres, n : Normals, up : Dirs, dn : Dirs, off : Off]
Dot(x, y) == x[1]*y[1] + x[2]*y[2] + x[3]*y[3]
Neg(x) == <<-x[1], -x[2], -x[3]>>
Hash(x) == (x.body * 7 + (x.c[1] + 3 * x.c[2]) * 11 + x.n[1] * 13 + x.n[3] * 3 + x.up[1] * 17 + x.up[2] * 5 + x.up[3] * 23 + x.dn[1] * 29 + x.dn[2] * 31 + x.dn[3] * 37 + x.off * 41 + 200) % Pick = 0
Mine == TLCEval({x \in All : Hash(x) /\ Dot(x.n, x.up) >= 0 /\ Dot(x.n, x.dn) >= 0})
\* everything about one configuration that the search needs, computed once
Bodied == TLCEval([k \in 1..3 |-> LET V == TLCEval([v \in 1..Len(Bodies[k].V) |-> P3(Bodies[k].V[v])]) IN [V |-> V, P |-> Planes(V, Bodies[k].F)]])
Id3 == <<<<"1","0","0">>, <<"0","1","0">>, <<"0","0","1">>>>
G(x) == [p |-> <<"0", "0", RDiv(N(x.off), "1")>>, n |-> P3(x.n), up |-> P3(x.up), dn |-> P3(Neg(x.dn))]
Fit(x, s) == LET B == Bodied[x.body] IN FitsSure(B.P, Copy(B.V, Mean(B.V), RDiv(N(s), N(Steps)), Id3, P3(x.c)), G(x))
Table(x) == TLCEval([s \in 1..Steps |-> Fit(x, s)])
Init == b = << >> /\ q = << >> /\ best = 0 /\ n = 0
Take == /\ b = << >>
        /\ \E x \in Mine : LET t == Table(x) IN b' = [x |-> x, t |-> t]
        /\ q' = Start(1, Steps) /\ UNCHANGED <<best, n>>
Search == /\ b # << >> /\ b.t[1] /\ ~b.t[Steps] /\ q.hi - q.lo > 1
          /\ q' = Halve(q, b.t[(q.lo + q.hi) \div 2]) /\ UNCHANGED <<b, best, n>>
Next == Take \/ Search
Spec == Init /\ [][Next]_<<b, q, best, n>>
On == b # << >>
OneThreshold == On => (Fit(b.x, 0) => \A s \in 2..Steps : b.t[s] => b.t[s - 1])
Bracket == (On /\ b.t[1] /\ ~b.t[Steps]) => b.t[q.lo] /\ ~b.t[q.hi]
Largest == (On /\ Fit(b.x, 0) /\ b.t[1] /\ ~b.t[Steps] /\ q.hi - q.lo <= 1) => q.lo = CHOOSE s \in 1..Steps : b.t[s] /\ (\A r \in 1..Steps : b.t[r] => r <= s)
\* the exact exits agree with rays against triangles
SameBody == (On /\ q.lo = 1 /\ q.hi = Steps) =>
    LET B == Bodied[b.x.body]  X == Copy(B.V, Mean(B.V), RDiv("1", N(Steps)), Id3, P3(b.x.c)) IN
    /\ Convex(B.V, B.P)
    /\ (b.t[1] => FitsBody(B.V, Bodies[b.x.body].F, X, G(b.x)))
    /\ (\A v \in 1..Len(X) : Deep(B.P, X[v], "0") => InBody(B.V, Bodies[b.x.body].F, X[v]))
Emit == (On /\ q.lo = 1 /\ q.hi = Steps) => PrintT("GEN " \o ToJson([body |-> b.x.body, c |-> b.x.c, n |-> b.x.n, up |-> b.x.up, dn |-> Neg(b.x.dn), off |-> b.x.off, first |-> b.t[1]]))
=============================================================================
