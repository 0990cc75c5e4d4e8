----------------------------- MODULE Tr_Spheres -----------------------------
(* P39: recorded iterations of Reach for the Spheres.  Modes: "flow" (no      *)
(* remeshing), "still" (a step of length zero, so that an iteration remeshes  *)
(* the mesh it is given), "free" (everything), "glue" (still, in space, with  *)
(* a remesher that reports what it was given).                                *)
EXTENDS Spheres, Outcome
VARIABLES h, l, st, bad
\* the mesh after the flow in the old numbering of vertices: faces keep their order
Back(X, F, Y, G) ==
    LET at == TLCEval([v \in 0..(Len(X) - 1) |-> LET c == {<<i, j>> : i \in 1..Len(F), j \in 1..Len(F[1])} IN CHOOSE x \in c : F[x[1]][x[2]] = v])
    IN TLCEval([v \in 1..Len(X) |-> Y[G[at[v-1][1]][at[v-1][2]] + 1]])
SameMesh(X, F, Y, G) == /\ Len(Y) = Len(X) /\ Len(G) = Len(F)
                        /\ \A i, k \in 1..Len(F) : \A a, b \in 1..Len(F[1]) : (F[i][a] = F[k][b]) <=> (G[i][a] = G[k][b])
BdOf(F) == IF Len(F[1]) = 2 THEN {v \in VertsOf(F, 1..Len(F)) : Cardinality(Outs(F, v)) + Cardinality(Ins(F, v)) = 1}
           ELSE LET e(i, j) == {F[i][j], F[i][Nx(j)]}
                    n(s) == Cardinality({<<i, j>> \in (1..Len(F)) \X (1..3) : e(i, j) = s})
                IN UNION {e(i, j) : <<i, j>> \in {x \in (1..Len(F)) \X (1..3) : n(e(x[1], x[2])) = 1}}
EqB(a, b) == IF a = "inf" \/ b = "inf" THEN a = b ELSE REq(a, b)
SameC(a, b) == a.its = b.its /\ a.counter = b.counter /\ a.rc = b.rc /\ EqB(a.best, b.best) /\ REq(a.h, b.h) /\ REq(a.minh, b.minh)
CtlNames(c, o) == (IF o.its # c.its THEN {"its"} ELSE {}) \cup (IF ~REq(o.h, c.h) \/ ~REq(o.minh, c.minh) THEN {"h"} ELSE {}) \cup (IF o.rc # c.rc THEN {"resample_counter"} ELSE {})
Valid(n, F) == \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : F[i][j] \in 0..(n - 1)
Small == "1/10000000"
\* ---- a remeshed curve
CurveJ(i, o, T) ==
    LET X == i.X  F == i.F  Y == o.X  G == o.F  n == Len(X) IN
    IF ~Valid(Len(Y), G) THEN {"remesh: an edge does not index the vertices"} ELSE
    IF ~CurveOk(Len(Y), G) THEN {"remesh: not a curve any more"} ELSE
    Failing({<<"remesh: number of pieces of the curve", Pieces(Len(Y), G) = Pieces(n, F)>>,
             <<"remesh: number of ends of the curve", Cardinality(Starts(Len(Y), G)) = Cardinality(Starts(n, F)) /\ Cardinality(Stops(Len(Y), G)) = Cardinality(Stops(n, F))>>})
StillJ(i, o, T) ==
    LET X == i.X  F == i.F  Y == o.X  G == o.F  n == Len(X)
        bd == Unmet(T)
        act == ActiveOf(F, bd, i.p.sensitive)
        pin == PinnedOf(n, F, bd, i.p)
        long == LongIn(X, F, act, o.c.h)  short == ShortIn(X, F, act, pin, o.c.h)
        some == i.p.rounds = 1 /\ ~Tight(X, F, act, o.c.h)
        rest == (1..Len(F)) \ act
    IN CurveJ(i, o, T) \cup
       Failing({<<"remesh: a vertex left the curve", \A v \in 1..Len(Y) : OnCurve(Y[v], X, F, Small)>>,
                <<"remesh: the curve moved away from an old vertex", \A v \in 1..n : OnCurve(X[v], Y, G, RMul("3", RMax(o.c.h, "0")))>>,
                <<"remesh: a pinned vertex moved", \A v \in pin : HasPoint(Y, X[v + 1], Small)>>,
                <<"remesh: an end moved", /\ \A v \in Starts(n, F) : \E w \in Starts(Len(Y), G) : RVNear(Y[w + 1], X[v + 1], Small, "0")
                                          /\ \A v \in Stops(n, F) : \E w \in Stops(Len(Y), G) : RVNear(Y[w + 1], X[v + 1], Small, "0")>>,
                <<"remesh: an edge outside the active part changed", \A k \in rest : HasEdge(Y, G, X[F[k][1] + 1], X[F[k][2] + 1], Small)>>,
                <<"remesh: number of edges", (some /\ short = {}) => Len(G) = Len(F) + Cardinality(long)>>,
                <<"remesh: no short edge collapsed", (some /\ short # {}) => Len(G) < Len(F) + Cardinality(long)>>})
\* ---- the active part of a surface, remeshed by r.X, r.F and put back
At3(X, f) == <<X[f[1] + 1], X[f[2] + 1], X[f[3] + 1]>>
TriSame(a, b) == \A j \in 1..3 : RVNear(a[j], b[j], Small, "0")
GlueJ(i, o, T) ==
    LET X == i.X  F == i.F  Y == o.X  G == o.F  bd == Unmet(T)
        act == ActiveOf(F, bd, TRUE)  rest == (1..Len(F)) \ act
        whole == rest = {}
        r == i.r                                          \* what the remesher was given and returned
        want == [k \in 1..Cardinality(rest) |-> At3(X, F[CHOOSE q \in rest : Cardinality({z \in rest : z < q}) = k - 1])] \o [k \in 1..Len(r.G) |-> At3(r.Y, r.G[k])]
        inner == (0..(Len(r.Y) - 1)) \ BdOf(r.G)
        rim == {v \in BdOf(r.G) : ~\E w \in VertsOf(F, rest) : RVNear(X[w + 1], r.Y[v + 1], Small, "0")}   \* where the surface itself ends
    IN IF ~Valid(Len(Y), G) THEN {"merge: a face does not index the vertices"} ELSE
       Failing({<<"merge: the active part is not the two rings of the unmet faces", Len(r.F) = Cardinality(act) /\ \A k \in act : \E q \in 1..Len(r.F) : TriSame(At3(X, F[k]), At3(r.X, r.F[q]))>>,
                <<"merge: remeshed more than once", r.n = 1>>,
                <<"merge: target length", REq(r.h, o.c.h)>>,
                <<"merge: number of faces", Len(G) = Len(want)>>,
                <<"merge: faces", Len(G) = Len(want) => \A k \in 1..Len(want) : \E q \in 1..Len(G) : TriSame(At3(Y, G[q]), want[k])>>,
                <<"merge: number of vertices", IF whole THEN Len(Y) = Len(r.Y) ELSE Len(Y) = Cardinality(VertsOf(F, rest)) + Cardinality(rim) + Cardinality(inner)>>,
                <<"merge: a closed surface was opened", BdOf(F) = {} => BdOf(G) = {}>>})
\* ---- one iteration
BatchJ(i, o) ==
    LET k == Len(i.U0)  m == Len(i.U)
        in0 == {q \in 1..k : RSgn(i.S0[q]) <= 0} IN
    IF ~(i.p.batch > 0 /\ i.p.batch < k) THEN Failing({<<"samples used", i.U = i.U0 /\ i.S = i.S0>>})
    ELSE Failing({<<"batch: size", m = i.p.batch + Cardinality(in0)>>,
                  <<"batch: not samples", \A a \in 1..m : \E q \in 1..k : i.U[a] = i.U0[q] /\ i.S[a] = i.S0[q]>>,
                  <<"batch: an inside sample is missing", \A q \in in0 : \E a \in 1..m : i.U[a] = i.U0[q]>>,
                  <<"batch: repeated samples", \A q \in 1..k : Cardinality({a \in 1..m : i.U[a] = i.U0[q]}) <= (IF q \in in0 THEN 2 ELSE 1)>>})
ResampleJ(i, o, again) ==
    LET k == Len(i.U0)  m == Len(o.U)  top == 2 * k IN
    IF ~again THEN Failing({<<"samples changed", o.U = i.U0 /\ o.S = i.S0>>})
    ELSE Failing({<<"resample: values of the samples", o.S = o.Sx>>,
                  <<"resample: an old sample was lost", \A q \in 1..k : \E a \in 1..m : o.U[a] = i.U0[q]>>,
                  <<"resample: number of samples", m > k /\ m <= Min2(top, k + i.p.rn)>>,
                  <<"resample: the batch is not reset", o.Ub = o.U /\ o.Sb = o.S>>})
IterJ(i, o) ==
    LET X == i.X  F == i.F  p == i.p
        T == Touches(X, F, i.U, i.S, p)
        sure == ~Unsure(T)
        outs == Control(i.c, IF i.err = "none" THEN "0" ELSE i.err, AllMet(T), p, 10, 100)
        sing == i.mode = "free" /\ o.conv /\ SameC(o.c, i.c) /\ o.islast
        fits == {q \in outs : SameC(q.c, o.c) /\ q.done = o.conv}
        q1 == CHOOSE q \in fits : TRUE
        over == i.c.its >= p.mi
        t == Step(X, F, T, p)
        fixed == IF p.fix THEN BdOf(F) ELSE {}
        Y == Back(X, F, o.X, o.F)
        FlowJ(rt) ==
            IF ~SameMesh(X, F, o.X, o.F) THEN {"flow: the mesh changed its connectivity"}
            ELSE Failing({<<"flow: not the step of the constraint energy", FlowOk(X, F, T, Y, t, fixed, rt)>>,
                          <<"flow: average error", RNear(i.err, AvgError(F, T, Y), "1/1000000000000", "1/1000000")>>})
    IN IF over THEN Failing({<<"iteration past the limit", o.conv /\ o.X = X /\ o.F = F /\ SameC(i.c, o.c)>>})
       ELSE IF sing THEN {}
       ELSE IF ~sure THEN {}
       ELSE BatchJ(i, o) \cup
            (IF fits = {} THEN {"control: " \o (IF \E q \in outs : q.done = o.conv THEN "counters" ELSE "converged")}
             ELSE ResampleJ(i, o, q1.again) \cup
                  Failing({<<"last converged mesh", IF q1.kept /\ i.mode = "flow" THEN o.lastF = F /\ \A v \in 1..Len(X) : RVNear(o.lastX[v], Y[v], "1/1000000000", "0")
                                                   ELSE q1.kept \/ o.samelast>>}) \cup
                  (IF i.mode = "flow" \/ q1.early THEN FlowJ("1/100000000")
                   ELSE IF i.mode = "still" THEN StillJ(i, o, T) ELSE IF i.mode = "glue" THEN GlueJ(i, o, T)
                   ELSE IF Len(F[1]) = 2 THEN CurveJ(i, o, T) ELSE {}))
            \cup Failing({<<"an argument was modified", o.same>>})
\* ---- everything at once, and what cannot be done
WholeJ(i, o) == Failing({<<"the whole run differs from its iterations", o.eq>>, <<"the run is not reproducible", o.again>>,
                         <<"returned sample positions", o.eqU>>, <<"an argument was modified", o.same>>})
\* a mesh with an edge of three or more elements is left as it was
SingularJ(i, o) == Failing({<<"singular mesh: not stopped", o.conv>>, <<"singular mesh: changed", o.X = i.X /\ o.F = i.F>>})
FreshJ(i, o) == Failing({<<"default samples: shape", o.ok>>, <<"default samples: values", o.S = o.Sx>>, <<"default samples: not reproducible", o.again>>,
                         <<"default samples: bounds", \A u \in 1..Len(o.U) : \A k \in 1..Len(o.U[1]) : RLe(i.lo[k], o.U[u][k]) /\ RLe(o.U[u][k], i.hi[k])>>})
RefuseJ(i, o) == Failing({<<i.what \o ": accepted", o.raised>>})
Jdg(s, e) == V(s, CASE e.op = "iter" -> IterJ(e.in, e.out) [] e.op = "whole" -> WholeJ(e.in, e.out) [] e.op = "singular" -> SingularJ(e.in, e.out)
                    [] e.op = "fresh" -> FreshJ(e.in, e.out) [] e.op = "refuse" -> RefuseJ(e.in, e.out))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
