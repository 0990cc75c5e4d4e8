------------------------------- MODULE Tr_Arcs ------------------------------
(* P44: the steps of reach_for_the_arcs (compiled from the sources, with      *)
(* stand-ins for libigl and nanoflann) and whole runs.                        *)
EXTENDS Arcs, Outcome
VARIABLES h, l, st, bad
Eps == "1/1000000000"
D0(i) == Len(i.U[1])
(* ---- points outside, from a grid of n cells per axis                       *)
CellsOf(d, n) == IF d = 2 THEN (0..(n - 1)) \X (0..(n - 1)) ELSE (0..(n - 1)) \X (0..(n - 1)) \X (0..(n - 1))
CellAt(p, n) == [c \in 1..Len(p) |-> LET k == RToInt(RFloor(RMul(p[c], ToString(n))), -9) IN k]
Lo(x, n) == RDiv(ToString(x), ToString(n))
\* squared distances of a center from the nearest and the farthest point of a cell
MinD2(u, cell, n) == RSum([c \in 1..Len(u) |-> LET a == Lo(cell[c], n) b == Lo(cell[c] + 1, n) IN Sq(RMax("0", RMax(RSub(a, u[c]), RSub(u[c], b))))])
MaxD2(u, cell, n) == RSum([c \in 1..Len(u) |-> LET a == Lo(cell[c], n) b == Lo(cell[c] + 1, n) IN Sq(RMax(RAbs(RSub(a, u[c])), RAbs(RSub(u[c], b))))])
Beside(x, y) == x # y /\ \A c \in 1..Len(x) : x[c] - y[c] \in -1..1
Shrunk(r) == RMul("95/100", Sq(r))
RasterJ(i, o) ==
    LET n == i.res  N == Len(i.U)
        cell == TLCEval([q \in 1..Len(o.P) |-> CellAt(o.P[q], n)])
        all == CellsOf(D0(i), n)
        b == TLCEval([q \in 1..N |-> Shrunk(RAbs(i.S[q]))])
        touched == TLCEval({x \in all : \E q \in 1..N : RLe(MinD2(i.U[q], x, n), RAdd(b[q], Eps))})      \* may be occupied
        full == TLCEval({x \in touched : \E q \in 1..N : RLe(MaxD2(i.U[q], x, n), RSub(b[q], Eps))})     \* surely occupied
    IN Failing({<<"not in the unit box", \A q \in 1..Len(o.P) : \A c \in 1..D0(i) : RLe("0", o.P[q][c]) /\ RLe(o.P[q][c], "1")>>,
                <<"two points in one cell", Injective(cell)>>,
                <<"a point inside a sphere", \A q \in 1..Len(o.P) : \A j \in 1..N : RLe(RSub(b[j], "1/1000000000000"), D2(o.P[q], i.U[j]))>>,
                <<"a point away from the spheres", i.band => \A q \in 1..Len(cell) : \E x \in touched : Beside(x, cell[q])>>,
                <<"a cell beside a sphere is left out", \A x \in all \ touched : (\E y \in full : Beside(x, y)) => \E q \in 1..Len(cell) : cell[q] = x>>,
                <<"an argument was modified", o.same>>})
(* ---- a cloud                                                               *)
CloudBad(i, o, J) ==
    LET R == TLCEval(Rad(i.S))  core == TLCEval(Cores(R, RAdd(i.tol, "1/100000000000")))  m == Len(o.f)
    IN IF Len(o.P) # m \/ Len(o.N) # m \/ \E q \in 1..m : o.f[q] < 0 \/ o.f[q] >= Len(i.U) THEN {"shapes"}
       ELSE Failing({<<"a point off its sphere", \A q \in 1..m : OnSphere(o.P[q], At(i.U, o.f[q]), At(R, o.f[q]), Eps)>>,
                     <<"a point inside another sphere", \A q \in 1..m : Outside(o.P[q], i.U, core, J \ {o.f[q] + 1})>>,
                     <<"a normal that is not the gradient", \A q \in 1..m : NormalOk(o.P[q], o.N[q], At(i.U, o.f[q]), At(i.S, o.f[q]), Eps)>>,
                     <<"a clamped sample got a point", \A q \in 1..m : (i.clamp = << >>) \/ RLt(At(R, o.f[q]), i.clamp[1])>>,
                     <<"an argument was modified", o.same>>})
Unit(v) == RVScale(RDiv("1", RSqrt(RDot(v, v), 90)), v)
FeasibleJ(i, o) ==
    LET N == Len(i.U)  J == {b + 1 : b \in Range(i.batch)}  R == TLCEval(Rad(i.S))
        bad0 == CloudBad(i, o, J)
        sure == TLCEval(Cores(R, RSub(i.tol, "1/10000000")))
        d(u) == TLCEval([q \in 1..Len(i.O) |-> D2(i.O[q], u)])
        start(q) == LET e == d(i.U[q])  k == CHOOSE k \in 1..Len(e) : \A j \in 1..Len(e) : RLe(e[k], e[j])
                    IN IF (\E j \in 1..Len(e) : (j # k) /\ RLe(RSub(e[j], e[k]), "1/100000000")) \/ RLe(e[k], "1/1000000000000") THEN << >>
                       ELSE RVAdd(i.U[q], RVScale(R[q], Unit(RVSub(i.O[k], i.U[q]))))
        lost(q) == /\ ((i.clamp = << >>) \/ RLt(R[q], i.clamp[1]))
                   /\ LET x == TLCEval(start(q)) IN (x # << >>) /\ Outside(x, i.U, sure, J \ {q})
                        /\ ~\E k \in 1..Len(o.f) : o.f[k] = q - 1 /\ RVNear(o.P[k], x, Eps, "0")
    IN IF bad0 # {} THEN bad0
       ELSE Failing({<<"more than one point per sample, or out of order", \A q \in 2..Len(o.f) : o.f[q] > o.f[q-1]>>,
                     <<"a sample whose nearest outside point is allowed lost it", \A q \in 1..N : ~lost(q)>>})
TuneJ(i, o) ==
    LET J == {b + 1 : b \in Range(i.batch)}  R == TLCEval(Rad(i.S))
        bad0 == CloudBad(i, o, J)
        sure == TLCEval(Cores(R, RSub(i.tol, "1/10000000")))
        had(q) == {k \in 1..Len(i.f) : i.f[k] = q - 1}
        has(q) == {k \in 1..Len(o.f) : o.f[k] = q - 1}
        el(f) == [c \in 1..Len(f) |-> At(i.V, f[c])]
        near(u) == LET e == TLCEval([f \in 1..Len(i.F) |-> ElemD2(u, el(i.F[f]))]) IN CHOOSE x \in Range(e) : \A y \in Range(e) : RLe(x, y)
        gap == TLCEval([q \in 1..Len(i.U) |-> RSub(RSqrt(near(i.U[q]), 60), R[q])])
        tangent(q) == RLe(RAbs(gap[q]), RSub(i.tol, "1/10000000")) \/ RLe(R[q], RSub(i.tol, "1/10000000"))
        free(k) == Outside(i.P[k], i.U, sure, J \ {i.f[k] + 1})
        live(q) == (i.clamp = << >>) \/ RLt(R[q], i.clamp[1])
    IN IF bad0 # {} THEN bad0
       ELSE Failing({<<"too many points on a sphere", \A q \in 1..Len(i.U) : Cardinality(has(q)) <= i.most>>,
                     <<"more than one new point on a sphere", \A q \in 1..Len(i.U) : Cardinality(has(q)) <= Cardinality(had(q)) + 1>>,
                     <<"new points where the surface does not cross", \A q \in 1..Len(i.U) : (RLe(RAdd(i.tol, "1/10000000"), gap[q]) /\ RLt(RAdd(i.tol, "1/10000000"), R[q])) => Cardinality(has(q)) <= 1>>,
                     <<"a point of a tangent sphere moved", \A q \in 1..Len(i.U) : (tangent(q) /\ live(q)) => \A k \in had(q) : free(k) => \E m \in has(q) : RVNear(o.P[m], i.P[k], Eps, "0")>>,
                     \* a point on a sphere is never taken far away from all others when nothing is in its way
                     <<"a point jumped", (i.quiet /\ ~\E q \in 1..Len(i.U) : ~live(q)) => \A q \in 1..Len(i.U) : had(q) # {} => \A m \in has(q) :
                          \E k \in had(q) : RLe(D2(o.P[m], i.P[k]), Sq(RAdd(i.t, Eps)))>>})
(* ---- whole runs                                                            *)
RunJ(i, o) ==
    LET R == TLCEval(Rad(i.S))  tol == RMul(i.tol, i.scale)  slack == RMul("1/10000000", i.scale)
        core == TLCEval(Cores(R, RAdd(tol, RMul(Eps, i.scale))))
        all == 1..Len(i.U)
        J(q) == IF i.together THEN all ELSE {k \in all : RLt(i.S[k], "0") <=> RLt(i.S[q], "0")}
        own(p, n) == {q \in all : /\ OnSphere(p, i.U[q], R[q], slack)
                                  /\ (i.clamp = << >>) \/ RLt(R[q], i.clamp[1])
                                  /\ \A c \in 1..Len(p) : RLe(RAbs(RSub(RMul(i.S[q], n[c]), RSub(i.U[q][c], p[c]))), slack)}
        rows(x) == {RVRound(x[q], 30) : q \in 1..Len(x)}
    IN IF ~o.shapes \/ Len(o.P) # Len(o.N) THEN {"shapes"}
       ELSE Failing({<<"a point on no sphere, or with another normal", \A q \in 1..Len(o.P) : own(o.P[q], o.N[q]) # {}>>,
                     <<"a point inside a sphere", i.all => \A q \in 1..Len(o.P) : own(o.P[q], o.N[q]) = {} \/ \E k \in own(o.P[q], o.N[q]) : Outside(o.P[q], i.U, core, J(k) \ {k})>>,
                     <<"the surface is not that of the cloud", Len(o.V) = Len(o.P) /\ \A q \in 1..Len(o.V) : \E k \in 1..Len(o.P) : RVNear(o.V[q], o.P[k], slack, "0")>>,
                     <<"screening weight or options", o.plain>>,
                     <<"another run, another result", o.again>>, <<"no point found", i.some => o.P # << >>>>,
                     <<"an argument was modified", o.same>>})
Jdg(s, e) == V(s, IF e.exc # "" THEN {"raised"}
                  ELSE CASE e.op = "raster" -> RasterJ(e.in, e.out) [] e.op = "feasible" -> FeasibleJ(e.in, e.out)
                         [] e.op = "tune" -> TuneJ(e.in, e.out) [] e.op = "run" -> RunJ(e.in, e.out))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
