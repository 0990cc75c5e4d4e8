----------------------------- MODULE Tr_Quadtree -----------------------------
(* P13, P14: recorded refinements and queries of quadtrees/octrees are steps  *)
(* of the Quadtree specification.  State: the decoded tree.                   *)
EXTENDS Quadtree, GeoMesh, Outcome
VARIABLES h, l, st, bad
Eps == "1/1000000000"
RECURSIVE Log2(_, _)
Log2(n, k) == IF n = 1 THEN k ELSE IF n < 1 \/ n % 2 = 1 THEN -1 ELSE Log2(n \div 2, k + 1)
WOf(s, c) == RDiv(s.W0, RNum(Pow2(c[1])))
LoR(s, c, k) == RAdd(s.mn[k], RMul(WOf(s, c), RNum(c[2][k])))
HiR(s, c, k) == RAdd(s.mn[k], RMul(WOf(s, c), RNum(c[2][k] + 1)))
Ctr(s, c) == [k \in 1..s.d |-> RDiv(RAdd(LoR(s, c, k), HiR(s, c, k)), "2")]
In(s, c, p) == \A k \in 1..s.d : RLe(LoR(s, c, k), p[k]) /\ RLe(p[k], HiR(s, c, k))
InStrict(s, c, p) == \A k \in 1..s.d : RLt(LoR(s, c, k), p[k]) /\ RLt(p[k], HiR(s, c, k))
\* decode the returned arrays; <<>> entry where a row is no dyadic cell
CellOf(mn, W0, d, ctr, w) ==
    LET q == IF RIsNum(w) /\ RSgn(w) > 0 THEN RToInt(RFloor(RAdd(RDiv(W0, w), "1/2")), -1) ELSE -1
        lev == IF q > 0 /\ RNear(RMul(RNum(q), w), W0, "0", Eps) THEN Log2(q, 0) ELSE -1
        ix == [k \in 1..d |-> IF lev >= 0 /\ RIsNum(ctr[k]) THEN RToInt(RFloor(RDiv(RSub(ctr[k], mn[k]), w)), -1) ELSE -1]
    IN IF lev < 0 \/ \E k \in 1..d : ix[k] < 0 \/ ix[k] >= q \/ ~RNear(RSub(ctr[k], mn[k]), RMul(w, RAdd(RNum(ix[k]), "1/2")), RMul(Eps, W0), "0")
       THEN <<-1, <<>>>> ELSE <<lev, ix>>
TreeShape(o, d) ==
    /\ o.t = "seq" /\ Len(o.a) = 6
    /\ IsArrK(o.a[1], "f", 2) /\ o.a[1].sh[2] = d
    /\ LET n == o.a[1].sh[1] IN
       /\ IsArr(o.a[2], "f", <<n>>) /\ IsArr(o.a[3], "i", <<n, Pow2(d)>>) /\ IsArr(o.a[4], "i", <<n>>) /\ IsArr(o.a[5], "i", <<n>>)
       /\ IsSp(o.a[6], <<n, n>>)
Decode(o, mn, W0, d) == LET n == o.a[1].sh[1] IN TLCEval([i \in 1..n |-> CellOf(mn, W0, d, o.a[1].a[i], o.a[2].a[i])])
Loaded(o, mn, W0, d, pts) == [ok |-> TRUE, d |-> d, mn |-> mn, W0 |-> W0, cell |-> Decode(o, mn, W0, d), pts |-> pts,
                         T |-> Range(Decode(o, mn, W0, d)), graded |-> FALSE]
\* structural clauses on an output
Structure(o, s) ==
    LET cell == s.cell  n == Len(cell)  T == s.T  CH == o.a[3].a  PAR == o.a[4].a  D == o.a[5].a  nk == Pow2(s.d) IN
    IF \E i \in 1..n : cell[i][1] < 0 THEN {"tree: a cell is not an exact bisection of the root"}
    ELSE IF Cardinality(T) # n THEN {"tree: cells repeat"}
    ELSE IF ~TreeLike(T, s.d) THEN {"tree: cells do not form a tree of full bisections"}
    ELSE LET M == SetMax({cell[i][1] : i \in 1..n})
             adj(i, j) == IF i = j \/ Below(cell[i], cell[j]) \/ Below(cell[j], cell[i]) THEN 0 ELSE SideM(cell[i], cell[j], M)
             Rec == {<<e[1] + 1, e[2] + 1, e[3]>> : e \in Range(o.a[6].e)}
         IN Failing({
         <<"tree: children records", \A i \in 1..n : IF Child(cell[i], 0) \in T
              THEN (\A m \in 1..nk : CH[i][m] \in 0..(n-1)) /\ {cell[CH[i][m] + 1] : m \in 1..nk} = Kids(cell[i])
              ELSE \A m \in 1..nk : CH[i][m] = -1>>,
         <<"tree: parent records", \A i \in 1..n : IF cell[i][1] = 0 THEN PAR[i] = -1 ELSE PAR[i] \in 0..(n-1) /\ cell[PAR[i] + 1] = Parent(cell[i])>>,
         <<"tree: depths", \A i \in 1..n : D[i] = cell[i][1] + 1>>,
         <<"tree: adjacency records a pair that does not touch, or a wrong direction", \A x \in Rec : LET sd == adj(x[1], x[2]) IN sd # 0 /\ REq(x[3], RNum(sd))>>,
         <<"tree: adjacency misses a touching pair", Cardinality(Rec) = Cardinality({p \in (1..n) \X (1..n) : adj(p[1], p[2]) # 0})>>})
InitJ(s, e) ==
    LET d == Len(e.in.P[1])
        mn0 == [k \in 1..d |-> IF e.in.box THEN e.in.vmin[k] ELSE LET RECURSIVE m(_) m(i) == IF i = 1 THEN e.in.P[1][k] ELSE RMin(e.in.P[i][k], m(i-1)) IN m(Len(e.in.P))]
        mx0 == [k \in 1..d |-> IF e.in.box THEN e.in.vmax[k] ELSE LET RECURSIVE m(_) m(i) == IF i = 1 THEN e.in.P[1][k] ELSE RMax(e.in.P[i][k], m(i-1)) IN m(Len(e.in.P))]
        W0 == LET RECURSIVE m(_) m(k) == IF k = 1 THEN RSub(mx0[1], mn0[1]) ELSE RMax(RSub(mx0[k], mn0[k]), m(k-1)) IN m(d)
        mn == [k \in 1..d |-> RSub(RDiv(RAdd(mn0[k], mx0[k]), "2"), RDiv(W0, "2"))]
    IN IF ~TreeShape(e.out, d) THEN [bad |-> {"initialize_quadtree: shape of the result"}, st |-> s, stop |-> TRUE]
       ELSE LET t == [Loaded(e.out, mn, W0, d, e.in.P) EXCEPT !.graded = e.in.graded]
                b == Structure(e.out, t)
                Need(c) == c[1] + 1 < e.in.mind \/ \E i \in Idx(e.in.P) : In(t, c, e.in.P[i])
            IN IF b # {} THEN Stop(t, b)
               ELSE Stop(t, Failing({
                 <<"initialize_quadtree: wrong cells divided", BuildOk(t.T, Need, e.in.maxd - 1, e.in.graded)>>,
                 <<"initialize_quadtree: not graded", e.in.graded => Graded(t.T)>>,
                 <<"initialize_quadtree: a point is outside the root", e.in.box \/ \A i \in Idx(e.in.P) : In(t, Root0(d), e.in.P[i])>>,
                 <<"initialize_quadtree: argument modified", e.in.same>>}))
SplitJ(s, e) ==
    IF ~TreeShape(e.out, s.d) THEN [bad |-> {"subdivide_quad: shape of the result"}, st |-> s, stop |-> TRUE]
    ELSE LET t == [Loaded(e.out, s.mn, s.W0, s.d, s.pts) EXCEPT !.graded = s.graded /\ e.in.graded]
             b == Structure(e.out, t)
             c == s.cell[e.in.ind + 1]
             want == IF e.in.graded THEN GSplit(s.T, c) ELSE Split(s.T, c)
         IN IF b # {} THEN Stop(t, b)
            ELSE Stop(t, Failing({
              <<"subdivide_quad: wrong cells divided", t.T = want>>,
              <<"subdivide_quad: existing cells renumbered", Len(t.cell) >= Len(s.cell) /\ \A i \in Idx(s.cell) : t.cell[i] = s.cell[i]>>,
              <<"subdivide_quad: not graded", t.graded => Graded(t.T)>>,
              <<"subdivide_quad: argument modified", e.in.same>>}))
LeafIx(s) == {i \in Idx(s.cell) : s.cell[i] \in Leaves(s.T)}
Ints(o) == IF o.t = "arr" THEN o.a ELSE IF o.t = "seq" THEN [i \in Idx(o.a) |-> IF o.a[i].t = "int" THEN o.a[i].v ELSE -999] ELSE <<-999>>
Same(o, S) == LET q == Ints(o) IN Len(q) = Cardinality(S) /\ {q[i] + 1 : i \in Idx(q)} = S
InJ(s, e) ==
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 \/ e.out.a[1].t # "int" \/ e.out.a[2].t \notin {"seq", "arr"} THEN {"in_quadtree: shape of the result"}
    ELSE LET p == e.in.p  i == e.out.a[1].v + 1  oth == LET q == Ints(e.out.a[2]) IN {q[k] + 1 : k \in Idx(q)}
             L == Leaves(s.T)
         IN IF ~In(s, Root0(s.d), p) THEN Failing({<<"in_quadtree: answer for a point outside", i = 0 /\ oth = {}>>})
            ELSE IF i \notin Idx(s.cell) THEN {"in_quadtree: no answer for a point inside"}
            ELSE Failing({
              <<"in_quadtree: not a leaf", s.cell[i] \in L>>,
              <<"in_quadtree: cell does not contain the point", In(s, s.cell[i], p)>>,
              <<"in_quadtree: listed cell does not contain the point", oth \subseteq Idx(s.cell) /\ \A k \in oth : In(s, s.cell[k], p)>>,
              <<"in_quadtree: containing cells missing from the list", \A k \in Idx(s.cell) : k # i /\ Below(s.cell[i], s.cell[k]) => k \in oth>>,
              <<"in_quadtree: containing cells missing from the list", InStrict(s, s.cell[i], p) =>
                    \A k \in Idx(s.cell) : s.cell[k] \notin L /\ In(s, s.cell[k], p) => k \in oth>>})
OnBd(s, c) == \E k \in 1..s.d : c[2][k] = 0 \/ c[2][k] + 1 = Pow2(c[1])
BdJ(s, e) ==
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 THEN {"quadtree_boundary: shape of the result"}
    ELSE Failing({
      <<"quadtree_boundary: wrong leaves", Same(e.out.a[1], {i \in LeafIx(s) : OnBd(s, s.cell[i])})>>,
      <<"quadtree_boundary: wrong cells", Same(e.out.a[2], {i \in Idx(s.cell) : OnBd(s, s.cell[i])})>>})
\* leaves in index order
LeafSeq(s) == LET S == LeafIx(s)
                  RECURSIVE g(_)
                  g(X) == IF X = {} THEN <<>> ELSE LET m == SetMin(X) IN <<s.cell[m]>> \o g(X \ {m})
              IN g(S)
CornersNear(s, c, Vs, q, tol) ==   \* the points of row q are exactly the corners of cell c
    \A m \in 0..(Pow2(s.d) - 1) : \E j \in Idx(q) : \A k \in 1..s.d :
        RNear(Vs[q[j] + 1][k], IF Bit(m, k) = 0 THEN LoR(s, c, k) ELSE HiR(s, c, k), tol, "0")
OneAxis(a, b, tol) == Cardinality({k \in Idx(a) : ~RNear(a[k], b[k], tol, "0")}) = 1
Cyc(Vs, q, tol) == \A j \in 1..4 : OneAxis(Vs[q[j] + 1], Vs[q[(j % 4) + 1] + 1], tol)
MeshJ(s, e) ==
    LET ls == LeafSeq(s)  nl == Len(ls)  tol == RMul(Eps, s.W0) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 3 \/ ~IsArrK(e.out.a[1], "f", 2) \/ e.out.a[1].sh[2] # s.d
       \/ ~IsArr(e.out.a[2], "i", <<IF s.d = 2 THEN nl ELSE 6 * nl, 4>>) THEN {"bad_quad_mesh: shape of the result"}
    ELSE LET Vs == e.out.a[1].a  Q == e.out.a[2].a  H == e.out.a[3]  n == Len(Vs)
         IN IF \E i \in Idx(Q) : \E j \in 1..4 : Q[i][j] \notin 0..(n-1) THEN {"bad_quad_mesh: index out of range"}
            ELSE IF s.d = 2 THEN Failing({
               <<"bad_quad_mesh: hexahedra of a quadtree are not empty", H.t = "arr" => H.sh[1] = 0>>,
               <<"bad_quad_mesh: duplicate vertices", Injective(Vs)>>,
               <<"bad_quad_mesh: squares are not the leaves", \A i \in 1..nl : CornersNear(s, ls[i], Vs, Q[i], tol) /\ Cyc(Vs, Q[i], tol)>>})
            ELSE IF ~IsArr(H, "i", <<nl, 8>>) THEN {"bad_quad_mesh: shape of the result"}
            ELSE Failing({
               <<"bad_quad_mesh: index out of range", \A i \in Idx(H.a) : \A j \in 1..8 : H.a[i][j] \in 0..(n-1)>>,
               <<"bad_quad_mesh: duplicate vertices", Injective(Vs)>>,
               <<"bad_quad_mesh: cubes are not the leaves", \A i \in 1..nl : CornersNear(s, ls[i], Vs, H.a[i], tol)>>,
               <<"bad_quad_mesh: square faces are not cyclic", \A i \in Idx(Q) : Cyc(Vs, Q[i], tol)>>,
               <<"bad_quad_mesh: square faces are not the faces of the leaves", LET fs == [i \in Idx(Q) |-> Range(Q[i])]
                   hx(i, k, b) == {H.a[i][j] : j \in {j \in 1..8 : RNear(Vs[H.a[i][j] + 1][k], IF b = 0 THEN LoR(s, ls[i], k) ELSE HiR(s, ls[i], k), tol, "0")}}
                   want == {hx(i, k, b) : i \in 1..nl, k \in 1..3, b \in 0..1}
                   have == {fs[i] : i \in Idx(fs)}
                   cnt(f) == Cardinality({x \in (1..nl) \X (1..3) \X (0..1) : hx(x[1], x[2], x[3]) = f})
               IN want = have /\ \A f \in want : Cardinality({i \in Idx(fs) : fs[i] = f}) = cnt(f)>>})
\* operators (2D, graded): stencil of leaf c as a set of <<leaf number, weight>> per side
StencilOk(s) == s.d = 2 /\ s.graded /\ Cardinality(s.T) > 1
NbOf(s, ls, c, sd) == {j \in Idx(ls) : Side(c, ls[j]) = sd}
Dist(s, c, o) == RDiv(RAdd(WOf(s, c), WOf(s, o)), "2")
LenOn(s, ls, c, N) == IF N = {} THEN "0" ELSE Dist(s, c, ls[CHOOSE j \in N : TRUE])
RowOf(es, r) == {<<es[x][2] + 1, es[x][3]>> : x \in {x \in Idx(es) : es[x][1] = r}}
Wt(row, j) == LET S == {x \in row : x[1] = j} IN IF S = {} THEN "0" ELSE (CHOOSE x \in S : TRUE)[2]
StoredOk(s, ls, o) == IsArr(o, "f", <<Len(ls), s.d>>) /\ \A i \in Idx(ls) : RVNear(o.a[i], Ctr(s, ls[i]), RMul(Eps, s.W0), "0")
GradJ(s, e) ==
    LET ls == LeafSeq(s)  nl == Len(ls) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 \/ ~IsSp(e.out.a[1], <<2 * nl, nl>>) \/ ~StoredOk(s, ls, e.out.a[2]) THEN {"quadtree_gradient: shape or storage locations"}
    ELSE Failing({<<"quadtree_gradient: not the centred difference of the neighbours", \A i \in 1..nl : \A k \in 1..2 :
           LET c == ls[i]  A == NbOf(s, ls, c, 2 * k - 1)  B == NbOf(s, ls, c, 2 * k)
               La == LenOn(s, ls, c, A)  Lb == LenOn(s, ls, c, B)  tot == RAdd(La, Lb)
               wt(j) == RDiv(RSub(IF B = {} THEN IF j = i THEN "1" ELSE "0" ELSE IF j \in B THEN RDiv("1", RNum(Cardinality(B))) ELSE "0",
                                  IF A = {} THEN IF j = i THEN "1" ELSE "0" ELSE IF j \in A THEN RDiv("1", RNum(Cardinality(A))) ELSE "0"), tot)
               row == RowOf(e.out.a[1].e, (k - 1) * nl + i - 1)
           IN \A j \in A \cup B \cup {i} \cup {x[1] : x \in row} : RNear(RMul(Wt(row, j), tot), RMul(wt(j), tot), Eps, "0")>>})
LapJ(s, e) ==
    LET ls == LeafSeq(s)  nl == Len(ls) IN
    IF e.out.t # "seq" \/ Len(e.out.a) # 2 \/ ~IsSp(e.out.a[1], <<nl, nl>>) \/ ~StoredOk(s, ls, e.out.a[2]) THEN {"quadtree_laplacian: shape or storage locations"}
    ELSE LET Chk(i) ==
           LET c == ls[i]  w2 == RMul(WOf(s, c), WOf(s, c))
               N == [sd \in 1..4 |-> NbOf(s, ls, c, sd)]
               L == [sd \in 1..4 |-> LenOn(s, ls, c, N[sd])]
               row == RowOf(e.out.a[1].e, i - 1)
               inner == \A sd \in 1..4 : N[sd] # {}
               wt(sd) == RDiv("2", RMul(L[sd], RAdd(L[sd], L[Opp(sd)])))
               \* a side without neighbours mirrors the opposite one
               side(sd) == IF N[Opp(sd)] = {} THEN RDiv("2", RMul(L[sd], RMul("2", L[sd]))) ELSE wt(sd)
               all == UNION {N[sd] : sd \in 1..4}
               want(j) == RSum([sd \in 1..4 |-> IF j \in N[sd] THEN RDiv(side(sd), RNum(Cardinality(N[sd]))) ELSE "0"])
           IN Failing({
               <<"quadtree_laplacian: row does not sum to zero", RNear(RMul(w2, RSum([q \in 1..nl |-> Wt(row, q)])), "0", Eps, "0")>>,
               <<"quadtree_laplacian: touches a cell that is not adjacent", \A x \in row : x[1] \in all \cup {i}>>,
               <<"quadtree_laplacian: not the centred difference of the neighbours",
                   \A j \in all : RNear(RMul(w2, Wt(row, j)), RMul(w2, want(j)), Eps, "0")>>})
         IN UNION {Chk(i) : i \in 1..nl}
Jdg(s, e) ==
    CASE e.op = "init" -> InitJ(s, e)
      [] e.op = "split" -> SplitJ(s, e)
      [] e.op = "children" -> V(s, Failing({<<"quadtree_children: not the childless cells", Same(e.out, LeafIx(s))>>}))
      [] e.op = "in_quadtree" -> V(s, InJ(s, e))
      [] e.op = "boundary" -> V(s, BdJ(s, e))
      [] e.op = "mesh" -> V(s, MeshJ(s, e))
      [] e.op = "gradient" -> V(s, IF StencilOk(s) THEN GradJ(s, e) ELSE {})
      [] e.op = "laplacian" -> V(s, IF StencilOk(s) THEN LapJ(s, e) ELSE {})
S0(hist) == [ok |-> FALSE]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
