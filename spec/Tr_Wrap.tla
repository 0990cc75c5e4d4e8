------------------------------- MODULE Tr_Wrap ------------------------------
(* P43: the Python side of the compiled algorithms, recorded with stand-ins   *)
(* for the compiled part that act by its documented contract.                 *)
EXTENDS Wrap, MeshTopo, Outcome
VARIABLES h, l, st, bad
Vx(X, f) == [j \in 1..3 |-> At(X, f[j])]
Spin(f) == {f, Rot(f), Rot(Rot(f))}

(* ---- remeshing: the stand-in leaves the first k vertices, lifts the others *)
(* by 1000 in a shuffled order, and adds a marker per feature edge and one    *)
(* for the remaining arguments.                                               *)
Normal(X, f) == LET p == Vx(X, f) IN RCross(RVSub(p[2], p[1]), RVSub(p[3], p[1]))
Angle(X, f, g) == LET a == Normal(X, f)  b == Normal(X, g)  c == RCross(a, b)
                  IN RAtan2(RSqrt(RDot(c, c), 90), RDot(a, b), 60)
MidPt(X, e) == LET p == At(X, e[1]) q == At(X, e[2]) IN RVScale("1/2", RVAdd(p, q))
Same3(x, y) == RVNear(x, y, "1/1000000000", "0")
RemeshJ(i, o) ==
    LET n == Len(i.V)
        inc == TLCEval(IncOf(i.F))
        kept == Once(i.feature)
        bd == UNION BoundaryU(inc)
        k == Cardinality(Elems(kept) \cup bd)
        lim == RDiv(RMul(i.thr, RPi(80)), "180")
        sharp(slack) == IF ~i.detect THEN {} ELSE {S \in DOMAIN inc : Cardinality(inc[S]) = 2 /\
                           LET x == CHOOSE x \in inc[S] : TRUE  y == CHOOSE y \in inc[S] : y # x
                           IN RLt(lim, RAdd(Angle(i.V, i.F[x[1]], i.F[y[1]]), slack))}
        given == {{i.edges[q][1], i.edges[q][2]} : q \in 1..Len(i.edges)}
        E1 == TLCEval(given \cup sharp("-1/1000000"))  E2 == TLCEval(given \cup sharp("1/1000000"))   \* surely, possibly
        mid(S) == LET a == CHOOSE a \in S : TRUE  b == CHOOSE b \in S : b # a IN MidPt(i.V, <<a, b>>)
        marks == {q \in (n + 1)..(Len(o.U) - 1) : TRUE}
        drop(x) == <<x[1], x[2], RSub(x[3], "5000")>>
        low(q) == IF q <= k THEN o.U[q] ELSE <<o.U[q][1], o.U[q][2], RSub(o.U[q][3], "1000")>>
        isrow(x, y) == Same3(x, y)
        was == TLCEval([q \in 1..n |-> {v \in 0..(n - 1) : isrow(At(i.V, v), low(q))}])     \* the input vertex behind output vertex q
    IN IF ~(\A S \in DOMAIN inc : Cardinality(inc[S]) <= 2) THEN {} ELSE
       IF Len(o.U) < n + 1 \/ Len(o.G) # Len(i.F) THEN {"another mesh"}
       ELSE IF \E q \in 1..n : Cardinality(was[q]) # 1 THEN {"a vertex of the result is not the one it should be"}
       ELSE LET org == TLCEval([q \in 1..n |-> CHOOSE v \in was[q] : TRUE])
            IN Failing({<<"vertices are lost", {org[q] : q \in 1..n} = 0..(n - 1)>>,
                        <<"feature vertices do not come first, in their order", \A q \in 1..Len(kept) : org[q] = kept[q]>>,
                        <<"the boundary does not follow", {org[q] : q \in 1..k} = Elems(kept) \cup bd>>,
                        <<"faces changed", {[j \in 1..3 |-> org[o.G[f][j] + 1]] : f \in 1..Len(o.G)} \subseteq UNION {Spin(i.F[f]) : f \in 1..Len(i.F)}
                                           /\ \A f \in 1..Len(i.F) : \E g \in 1..Len(o.G) : [j \in 1..3 |-> org[o.G[g][j] + 1]] \in Spin(i.F[f])>>,
                        <<"a feature edge is not kept", \A S \in E1 : \E q \in marks : Same3(drop(o.U[q]), mid(S))>>,
                        <<"an edge is kept that is no feature edge", \A q \in marks : \E S \in E2 : Same3(drop(o.U[q]), mid(S))>>,
                        <<"edge length", LET want == IF i.h # << >> THEN i.h[1] ELSE
                                             RDiv(RSum([q \in 1..(3 * Len(i.F)) |-> LET f == i.F[((q - 1) \div 3) + 1] s == Side(f, ((q - 1) % 3) + 1)
                                                                                  IN RSqrt(RDist2(At(i.V, s[1]), At(i.V, s[2])), 90)]), ToString(3 * Len(i.F)))
                                         IN RNear(o.U[Len(o.U)][1], want, "0", "1/1000000000000")>>,
                        <<"iterations and projection", o.U[Len(o.U)][2] = i.i /\ o.U[Len(o.U)][3] = i.project>>,
                        <<"an argument was modified", o.same>>})

(* ---- the search for a cage                                                 *)
CageJ(i, o) ==
    LET f == Search(i.top, i.ans)  e == f[Len(i.ans)]
        want == IF e.found THEN e.hi ELSE e.last
    IN Failing({<<"offsets tried", Len(o.asked) = Len(i.ans) /\ \A q \in 1..Len(i.ans) : RNear(o.asked[q], f[q].last, "0", "1/1000000000000")>>,
                <<"grid size or face count", o.plain>>,
                <<"a cage was made up", (~e.found /\ ~i.force) => o.d = << >>>>,
                <<"no cage", (e.found \/ i.force) => o.d # << >>>>,
                <<"not the tightest cage found", o.d # << >> => RNear(o.d[1], want, "0", "1/1000000000000")>>,
                <<"an argument was modified", o.same>>})

(* ---- counts of faces                                                       *)
DecimateJ(i, o) ==
    LET want == IF i.num # << >> THEN <<i.num[1]>> ELSE LET x == RMul(i.ratio, ToString(i.m)) IN
                    <<RFloor(RSub(x, "1/1000000000")), RFloor(RAdd(x, "1/1000000000"))>>
    IN Failing({<<"number of faces", \E q \in 1..Len(want) : REq(want[q], o.n)>>, <<"method", o.method = i.method>>,
                <<"faces and vertices of the result", o.order>>, <<"an argument was modified", o.same>>})
BoolJ(i, o) == Failing({<<"operation", o.op = (CASE i.name \in {"union", ""} -> "union" [] i.name = "intersection" -> "intersection" [] i.name \in {"difference", "minus"} -> "difference")>>,
                        <<"operands or result", o.plain>>, <<"an argument was modified", o.same>>})
MeetJ(i, o) == Failing({<<"meet or not", o.b = (i.pairs # << >>)>>, <<"pairs", IF i.pairs = << >> THEN o.none ELSE ~o.none /\ o.pairs = i.pairs>>,
                        <<"operands", o.plain>>, <<"an argument was modified", o.same>>})

(* ---- arguments handed over and results handed back                         *)
PassJ(i, o) == Failing({<<"arguments handed over", o.got = i.want>>, <<"results handed back", o.res = i.ret>>, <<"an argument was modified", o.same>>})

(* ---- trajectories                                                          *)
Gram(R) == [a \in 1..3 |-> [b \in 1..3 |-> RDot([r \in 1..3 |-> R[r][a]], [r \in 1..3 |-> R[r][b]])]]
IsTurn(R) == /\ \A a \in 1..3 : \A b \in 1..3 : RNear(Gram(R)[a][b], IF a = b THEN "1" ELSE "0", "1/1000000000", "0")
             /\ RLt("0", RDot(R[1], RCross(R[2], R[3])))
SweepJ(i, o) ==
    LET n == Len(i.pos)
        at(q) == [r \in 1..4 |-> o.M[4 * (q - 1) + r]]
        lin(q) == [r \in 1..3 |-> [c \in 1..3 |-> at(q)[r][c]]]
        sc(q) == IF i.scales = << >> THEN "1" ELSE i.scales[q]
        dir(q) == IF q = 1 THEN RVSub(i.pos[2], i.pos[1]) ELSE IF q = n THEN RVSub(i.pos[n], i.pos[n-1]) ELSE RVSub(i.pos[q+1], i.pos[q-1])
        along(q) == LET x == [r \in 1..3 |-> RDiv(lin(q)[r][1], sc(q))]  v == dir(q) len == RSqrt(RDot(v, v), 90)
                    IN RVNear(x, RVScale(RDiv("1", len), v), "1/1000000000", "0")
    IN IF i.whole # << >> THEN Failing({<<"the given transformations", o.M = i.whole>>, <<"options", o.plain>>, <<"an argument was modified", o.same>>})
       ELSE IF Len(o.M) # 4 * n THEN {"number of keyframes"}
       ELSE Failing({<<"last rows", \A q \in 1..n : at(q)[4] = <<"0", "0", "0", "1">>>>,
                     <<"positions", \A q \in 1..n : \A r \in 1..3 : at(q)[r][4] = i.pos[q][r]>>,
                     <<"rotations", IF i.rot # << >> THEN \A q \in 1..n : \A r \in 1..3 : RVNear(lin(q)[r], RVScale(sc(q), i.rot[q][r]), "1/1000000000000", "1/1000000000000")
                                    ELSE IF i.align THEN \A q \in 1..n : IsTurn([r \in 1..3 |-> [c \in 1..3 |-> RDiv(lin(q)[r][c], sc(q))]]) /\ along(q)
                                    ELSE \A q \in 1..n : \A r \in 1..3 : \A c \in 1..3 : REq(lin(q)[r][c], IF r = c THEN sc(q) ELSE "0")>>,
                     <<"options", o.plain>>, <<"an argument was modified", o.same>>})
Jdg(s, e) == V(s, IF e.op = "refuse" THEN Failing({<<e.in.what, e.out.raised>>})
                  ELSE IF e.exc # "" THEN {"raised"}
                  ELSE CASE e.op = "remesh" -> RemeshJ(e.in, e.out) [] e.op = "cage" -> CageJ(e.in, e.out) [] e.op = "decimate" -> DecimateJ(e.in, e.out)
                       [] e.op = "bool" -> BoolJ(e.in, e.out) [] e.op = "meet" -> MeetJ(e.in, e.out) [] e.op = "pass" -> PassJ(e.in, e.out)
                       [] e.op = "sweep" -> SweepJ(e.in, e.out))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
