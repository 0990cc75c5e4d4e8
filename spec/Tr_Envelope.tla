----------------------------- MODULE Tr_Envelope ----------------------------
(* P42: recorded results of upper_envelope (compiled from the sources, with   *)
(* stand-ins for the libigl helpers).  `par` names for each output tet the    *)
(* input tet it is claimed to lie in; that claim is verified here.            *)
EXTENDS Envelope, MeshTopo, Outcome
VARIABLES h, l, st, bad
Eps == "1/1000000000"
Edge3(X, t) == <<RVSub(At(X, t[2]), At(X, t[1])), RVSub(At(X, t[3]), At(X, t[1])), RVSub(At(X, t[4]), At(X, t[1]))>>
Vol(X, t) == LET e == Edge3(X, t) IN RDot(e[1], RCross(e[2], e[3]))
\* barycentric tuple of x in the tet with edges e and volume v
Bary(x0, e, v, x) == LET y == RVSub(x, x0)
                         b2 == RDiv(RDot(y, RCross(e[2], e[3])), v)
                         b3 == RDiv(RDot(e[1], RCross(y, e[3])), v)
                         b4 == RDiv(RDot(e[1], RCross(e[2], y)), v)
                     IN RVRound(<<RSub("1", RSum(<<b2, b3, b4>>)), b2, b3, b4>>, 80)
SliceJ(i, o) ==
    LET n == Len(i.V)  m == Len(i.T)  k == i.k
    IN IF ~(o.shapes /\ Len(o.G) = Len(o.L)) THEN {"shapes"}
       ELSE IF \E q \in 1..Len(o.G) : Cardinality({o.G[q][j] : j \in 1..4}) # 4 \/ \E j \in 1..4 : o.G[q][j] < 0 \/ o.G[q][j] >= Len(o.U) THEN {"not a tetrahedron of output vertices"}
       ELSE IF \E q \in 1..Len(o.G) : Cardinality({a \in 1..k : o.L[q][a] = 1}) # 1 THEN {"not exactly one label"}
       ELSE
       LET E == TLCEval([q \in 1..m |-> Edge3(i.V, i.T[q])])
           W == TLCEval([q \in 1..m |-> Vol(i.V, i.T[q])])
           B == TLCEval([q \in 1..Len(o.G) |-> LET p == i.par[q] IN TLCEval([j \in 1..4 |-> Bary(At(i.V, i.T[p][1]), E[p], W[p], At(o.U, o.G[q][j]))])])
           S == TLCEval([q \in 1..Len(o.G) |-> RDiv(Vol(o.U, o.G[q]), W[i.par[q]])])    \* signed share of the input tet
           lab == [q \in 1..Len(o.G) |-> CHOOSE a \in 1..k : o.L[q][a] = 1]
           loc(q) == [j \in 1..4 |-> At(i.D, i.T[i.par[q]][j])]
           inc == IF k = 2 THEN TIncOf(o.G) ELSE << >>
           binc == LET z == TIncOf(i.T) IN TLCEval({F \in DOMAIN z : Cardinality(z[F]) = 1})
           part(p) == LET f[q \in 0..Len(o.G)] == IF q = 0 THEN "0" ELSE IF i.par[q] = p THEN RAdd(f[q-1], S[q]) ELSE f[q-1] IN f[Len(o.G)]
       IN Failing({<<"a piece is not inside a tetrahedron of the input", \A q \in 1..Len(o.G) : \A j \in 1..4 : \A c \in 1..4 : RLe("-1/1000000000", B[q][j][c])>>,
                   <<"a piece is turned inside out", \A q \in 1..Len(o.G) : RLe("-1/1000000000000", S[q])>>,
                   <<"the pieces do not fill a tetrahedron of the input", \A p \in 1..m : RNear(part(p), "1", Eps, "0")>>,
                   <<"a label is exceeded inside its piece", \A q \in 1..Len(o.G) : \A j \in 1..4 : \A b \in 1..k :
                        b = lab[q] \/ RLe("-3/100000", Gap(loc(q), B[q][j], lab[q], b))>>,
                   <<"pieces do not meet face to face", k = 2 => \A F \in DOMAIN inc : Cardinality(inc[F]) <= 2>>,
                   <<"faces of neighbours are not opposite", k = 2 => \A F \in DOMAIN inc : Cardinality(inc[F]) = 2 =>
                        LET x == CHOOSE x \in inc[F] : TRUE  y == CHOOSE y \in inc[F] : y # x
                            f == TFace(o.G[x[1]], x[2])  g == TFace(o.G[y[1]], y[2])
                        IN SameCycle(f, <<g[3], g[2], g[1]>>)>>,
                   <<"an inner face has a piece on one side only", k = 2 => \A F \in DOMAIN inc : Cardinality(inc[F]) = 1 =>
                        LET x == CHOOSE x \in inc[F] : TRUE  q == x[1]  p == i.par[q]
                        IN \E c \in 1..4 : /\ {i.T[p][j] : j \in (1..4) \ {c}} \in binc
                                           /\ \A j \in 1..4 : At(o.G, q - 1)[j] \in F => RLe(RAbs(B[q][j][c]), Eps)>>,
                   <<"an argument was modified", o.same>>})
Jdg(s, e) == V(s, IF e.exc # "" THEN {"raised"} ELSE SliceJ(e.in, e.out))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
