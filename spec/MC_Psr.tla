------------------------------- MODULE MC_Psr --------------------------------
(* A sample wanders over the smallest grids.  Around every position: which    *)
(* staggered nodes the kernel reaches, whether the neighbourhoods used to     *)
(* find them (three cells around the sample's cell, two around a node; as     *)
(* sets of flat offsets) contain each of them, partition of unity of the      *)
(* interpolation, and the identities of the discrete operators.               *)
EXTENDS Psr, FiniteSets, TLC, Json
CONSTANTS Dims
VARIABLES gs, h, u
Places(n) == {"0", "1/4", "3/4", "2", RSub(RNum(n), "5/4"), RNum(n - 1)}
Grids == IF 3 \in Dims THEN { <<6, 6, 6>>, <<7, 6, 6>> } ELSE { <<6, 6>>, <<6, 9>>, <<8, 6>> }
Spacings(d) == IF d = 3 THEN { <<"1", "1", "1">>, <<"1/8", "1/4", "3/16">> } ELSE { <<"1", "1">>, <<"1/8", "1/4">>, <<"3", "2">> }
Init == gs \in Grids /\ h \in Spacings(Len(gs)) /\ u = [d \in 1..Len(gs) |-> "0"]
Next == /\ \E d \in 1..Len(gs) : \E p \in Places(gs[d]) : RLt(u[d], p) /\ (\A e \in (d+1)..Len(gs) : u[e] = "0") /\ u' = [u EXCEPT ![d] = p]
        /\ UNCHANGED <<gs, h>>
Spec == Init /\ [][Next]_<<gs, h, u>>
Origin0 == [d \in 1..Len(gs) |-> "0"]
Pt == [d \in 1..Len(gs) |-> RMul(u[d], h[d])]
First == u = Origin0
Flat(g, r) == {LET f[k \in 0..Len(g)] == IF k = 0 THEN 0 ELSE f[k-1] + o[k] * Stride(g, k) IN f[Len(g)] : o \in [1..Len(g) -> (-r)..r]}
\* cell of the sample on staggered grid d; the half cell before the first node belongs to the first cell
Home(d) == [k \in 1..Len(gs) |-> LET c == RToInt(RFloor(IF k = d THEN RSub(u[k], "1/2") ELSE u[k]), 0) IN IF c < 0 THEN 0 ELSE c]
Reached(d) == LET g == Less(gs, d)  sc == StagCorner(Origin0, h, d) IN {r \in 0..(Prod(g)-1) : Ker(h, Pt, Node(sc, h, Coord(g, r))) # "0"}
InReach == \A d \in 1..Len(gs) : LET g == Less(gs, d) IN
    /\ InGrid(g, Home(d))
    /\ Reached(d) # {}
    /\ \A r \in Reached(d) : (r - Index(g, Home(d))) \in Flat(g, 3)
Unity == LET B == [d \in 1..Len(gs) |-> Near1(gs[d], u[d])] IN
    \A d \in 1..Len(gs) : RSum([q \in 1..gs[d] |-> Hat1(RSub(u[d], RNum(q - 1)))]) = "1"
Tiny == "1/1000000000000000000000"
Blurred == First => LET bell == Bell IN \A n \in {6, 7, 9, 13} : LET B == Blur(n, bell) IN
    /\ \A i \in 0..(n-1) : RNear(RSum([j \in 1..n |-> B[i][j-1]]), "1", Tiny, "0")
    /\ \A i, j \in 0..(n-1) : B[i][j] = B[j][i] /\ RLt("0", B[i][j])
Nodes(d) == Prod(Less(gs, d))
Probe(n, s) == [q \in 1..n |-> RNum(((q * q * s + 3 * q) % 7) - 3)]
Operators == First => LET Gs == Grads(gs, h)  n == Prod(gs) IN \A s \in 1..3 :
    LET x == Probe(n, s)  F == [d \in 1..Len(gs) |-> Probe(Nodes(d), s + 1)] IN
    /\ RNear(RSum(Div(Gs, F, n)), "0", Tiny, "0")
    /\ RNear(RDot(x, Div(Gs, F, n)), RSum([d \in 1..Len(gs) |-> RDot(RSpMV(Gs[d], Nodes(d), x), F[d])]), Tiny, "0")
    /\ RLe("0", RDot(x, RVSub(Screened(Gs, gs, x), RVScale(Eps, x))))
\* the kernel between nodes has no entry beyond two cells, is symmetric and (Schoenberg) has non-negative quadratic forms
Stencilled == First => LET st == Stencil(h) IN
    /\ \A o \in [1..Len(gs) -> {-3, 3}] : Ker(h, [d \in 1..Len(gs) |-> RMul(h[d], RNum(o[d]))], Origin0) = "0"
    /\ \A o \in DOMAIN st : st[o] = st[[d \in 1..Len(gs) |-> -o[d]]]
    /\ \A d \in 1..Len(gs), s \in 1..3 : LET K1 == Between(gs, d, st) x == Probe(Nodes(d), s) IN RLe("0", RDot(x, RSpMV(K1, Nodes(d), x)))
Emit == PrintT("GEN " \o ToJson([gs |-> gs, h |-> h, u |-> u]))
=============================================================================
