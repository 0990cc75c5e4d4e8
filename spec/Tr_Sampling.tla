---------------------------- MODULE Tr_Sampling -----------------------------
(* P28: recorded samples of polylines and triangle meshes.                    *)
EXTENDS Sampling, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000000"
SampleJ(e) ==
    LET i == e.in  o == e.out  k == Len(i.F[1])  n == i.n  d == Len(i.V[1])
        ok == o.t = "seq" /\ Len(o.a) = 3 /\ IsArr(o.a[1], "f", <<n, d>>) /\ IsArr(o.a[2], "i", <<n>>) /\ IsArr(o.a[3], "f", <<n, k>>) IN
    IF ~ok THEN {"random_points_on_mesh: shape of the results"}
    ELSE LET x == o.a[1].a  I == o.a[2].a  u == o.a[3].a  m == Len(i.F) IN
         IF \E s \in 1..n : I[s] < 0 \/ I[s] >= m THEN {"random_points_on_mesh: an element index does not exist"}
         ELSE LET size == TLCEval([f \in 1..m |-> TLCEval(RMul(Size(i.V, i.F[f]), i.w[f]))])
                  all == RSum(size)
                  scale == RAdd("1", MaxAbs2(i.V))
                  bc(s) == RVAdd(RVScale(u[s][1], Pt(i.V, i.F[I[s]+1][1])), IF k = 2 THEN RVScale(u[s][2], Pt(i.V, i.F[I[s]+1][2]))
                              ELSE RVAdd(RVScale(u[s][2], Pt(i.V, i.F[I[s]+1][2])), RVScale(u[s][3], Pt(i.V, i.F[I[s]+1][3]))))
                  lev == IF k = 3 THEN 2 ELSE 3
                  key == TLCEval([s \in 1..n |-> IF i.stat THEN TLCEval(Cell(u[s], lev)) ELSE << >>])
                  share(f) == RDiv(size[f], all)
              IN Failing({<<"random_points_on_mesh: barycentric coordinates", \A s \in 1..n : (\A j \in 1..k : RLe("0", u[s][j])) /\ RNear(RSum(u[s]), "1", Tol, "0")>>,
                          <<"random_points_on_mesh: a point is not the combination reported with it", \A s \in 1..n : RVNear(x[s], bc(s), RMul(Tol, scale), "0")>>,
                          <<"random_points_on_mesh: an element of zero size or weight was chosen", \A s \in 1..n : RLt("0", size[I[s]+1])>>,
                          <<"random_points_on_mesh: how often the elements are chosen", i.stat => \A f \in 1..m : Plausible(Cardinality({s \in 1..n : I[s] = f - 1}), n, share(f))>>,
                          <<"random_points_on_mesh: points are not spread evenly inside the elements", i.stat => \A c \in Cells(k, lev) : Plausible(Cardinality({s \in 1..n : key[s] = c}), n, RDiv("1", RNum(CellCount(k, lev))))>>,
                          <<"random_points_on_mesh: points are not spread evenly inside an element", i.stat => \A f \in 1..m : \A c \in Cells(k, 1) :
                                  Plausible(Cardinality({s \in 1..n : I[s] = f - 1 /\ key[s][1] = c[1]}), n, RDiv(share(f), RNum(CellCount(k, 1))))>>,
                          <<"random_points_on_mesh: argument modified", i.same>>})
SameJ(e) == Failing({<<"random_points_on_mesh: equal generators, different points", e.in.equal>>})
Jdg(s, e) == V(s, IF e.op = "sample" THEN SampleJ(e) ELSE SameJ(e))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
