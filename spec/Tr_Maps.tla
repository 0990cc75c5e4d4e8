------------------------------- MODULE Tr_Maps -------------------------------
(* P07: array_correspondence, remove_unreferenced, remove_duplicate_vertices. *)
EXTENDS BigRat, Outcome
VARIABLES h, l, st, bad

Flat(X) == IF X = <<>> THEN <<>> ELSE
    LET w == Len(X[1]) IN [k \in 1..(Len(X) * w) |-> X[((k - 1) \div w) + 1][((k - 1) % w) + 1]]
Transp(X, w) == [j \in 1..w |-> [i \in 1..Len(X) |-> X[i][j]]]
\* the sequence of entries that are compared: scalars, rows or columns
Items(X, nd, axis, sh) ==
    IF axis = "None" THEN IF nd = 2 THEN Flat(X) ELSE X
    ELSE IF nd = 1 \/ axis \in {"0", "-2"} THEN X
    ELSE Transp(X, sh[2])
CorrJ(e) ==
    LET A == Items(e.in.A, Len(e.in.sa), e.in.axis, e.in.sa)
        B == Items(e.in.B, Len(e.in.sb), e.in.axis, e.in.sb)
    IN IF ~IsArr(e.out, "i", <<Len(A)>>) THEN {"array_correspondence: shape"}
       ELSE LET f == e.out.a  have == Range(B) IN Failing({
          <<"array_correspondence: index out of range", \A i \in Idx(f) : f[i] >= -1 /\ f[i] < Len(B)>>,
          <<"array_correspondence: -1 exactly when there is no equal entry", \A i \in Idx(f) : (f[i] = -1) = (A[i] \notin have)>>,
          <<"array_correspondence: indexed entry is equal", \A i \in Idx(f) : (f[i] >= 0 /\ f[i] < Len(B)) => B[f[i] + 1] = A[i]>>})

\* entries of an index matrix
Entries(F) == UNION {Range(F[i]) : i \in Idx(F)}
UnrefJ(e) ==
    LET F == e.in.F  n == e.in.n  hasneg == -1 \in Entries(F)
        ref == Entries(F) \ {-1}
        need == IF e.in.maps THEN 4 ELSE 2
    IN IF e.out.t # "seq" \/ Len(e.out.a) # need THEN {"remove_unreferenced: number of results"}
       ELSE LET NV == e.out.a[1]  NF == e.out.a[2]  w == Len(F[1]) IN
       IF ~IsArr(NF, "i", <<Len(F), w>>) THEN {"remove_unreferenced: faces shape"}
       ELSE IF e.in.hasV /\ ~(NV.t = "arr" /\ NV.sh = <<Cardinality(ref), Len(e.in.V[1])>>) THEN {"remove_unreferenced: one vertex per referenced vertex"}
       ELSE LET nf == NF.a  n1 == Cardinality(ref) IN
        IF Entries(nf) \ {-1} # 0..(n1 - 1) THEN {"remove_unreferenced: new indices are not 0..n-1, all used"}
        ELSE Failing({
          <<"remove_unreferenced: skipped entries stay skipped", \A i \in Idx(F) : \A j \in 1..w : (F[i][j] = -1) = (nf[i][j] = -1)>>,
          <<"remove_unreferenced: corners correspond one to one",
             \A i, k \in Idx(F) : \A j, m \in 1..w : (F[i][j] = F[k][m]) = (nf[i][j] = nf[k][m])>>,
          <<"remove_unreferenced: corners keep their position", e.in.hasV =>
             \A i \in Idx(F) : \A j \in 1..w : F[i][j] # -1 => NV.a[nf[i][j] + 1] = e.in.V[F[i][j] + 1]>>,
          <<"remove_unreferenced: V stays None", ~e.in.hasV => NV.t = "none">>})
        \cup IF ~e.in.maps THEN {} ELSE
         LET I == e.out.a[3]  J == e.out.a[4] IN
         IF ~IsArr(I, "i", <<IF hasneg THEN n + 1 ELSE n>>) \/ ~IsArr(J, "i", <<n1>>) THEN {"remove_unreferenced: map shapes"}
         ELSE Failing({
          <<"remove_unreferenced: I[F] = newF", \A i \in Idx(F) : \A j \in 1..w :
              nf[i][j] = (IF F[i][j] = -1 THEN I.a[Len(I.a)] ELSE I.a[F[i][j] + 1])>>,
          <<"remove_unreferenced: unreferenced vertices map to -1", \A v \in 0..(n - 1) : v \notin ref => I.a[v + 1] = -1>>,
          <<"remove_unreferenced: J inverts I", \A k \in 1..n1 : J.a[k] \in ref /\ I.a[J.a[k] + 1] = k - 1>>,
          <<"remove_unreferenced: V[J] = newV", e.in.hasV => \A k \in 1..n1 : NV.a[k] = e.in.V[J.a[k] + 1]>>})

Within(p, q, eps) == \A c \in Idx(p) : RLe(RAbs(RSub(p[c], q[c])), eps)
DupJ(e) ==
    LET Vx == e.in.V  eps == e.in.eps  n == Len(Vx)  hasF == e.in.hasF IN
    IF e.out.t # "seq" \/ Len(e.out.a) # (IF hasF THEN 4 ELSE 3) THEN {"remove_duplicate_vertices: number of results"}
    ELSE LET SV == e.out.a[1]  SI == e.out.a[2]  SJ == e.out.a[3] IN
    IF ~(SV.t = "arr" /\ Len(SV.sh) = 2 /\ SV.sh[2] = Len(Vx[1])) \/ ~IsArr(SI, "i", <<SV.sh[1]>>) \/ ~IsArr(SJ, "i", <<n>>)
       THEN {"remove_duplicate_vertices: shapes"}
    ELSE LET m == SV.sh[1] sv == SV.a si == SI.a sj == SJ.a IN
    IF \E k \in 1..m : si[k] < 0 \/ si[k] >= n THEN {"remove_duplicate_vertices: SVI out of range"}
    ELSE IF \E k \in 1..n : sj[k] < 0 \/ sj[k] >= m THEN {"remove_duplicate_vertices: SVJ out of range"}
    ELSE Failing({
      <<"remove_duplicate_vertices: SV = V[SVI]", \A k \in 1..m : sv[k] = Vx[si[k] + 1]>>,
      <<"remove_duplicate_vertices: every vertex stays within epsilon of its representative", \A k \in 1..n : Within(Vx[k], sv[sj[k] + 1], eps)>>,
      <<"remove_duplicate_vertices: equal vertices get one representative", \A i, k \in 1..n : Vx[i] = Vx[k] => sj[i] = sj[k]>>,
      <<"remove_duplicate_vertices: representatives are distinct", Cardinality(Range(sv)) = m>>,
      <<"remove_duplicate_vertices: every representative is used", Range(sj) = 0..(m - 1)>>,
      <<"remove_duplicate_vertices: a representative represents itself", \A k \in 1..m : sj[si[k] + 1] = k - 1>>,
      <<"remove_duplicate_vertices: near clusters merge", e.in.hasC =>
            \A i, k \in 1..n : (e.in.clusters[i] = e.in.clusters[k]) = (sj[i] = sj[k])>>})
    \cup IF ~hasF THEN {} ELSE
      LET SF == e.out.a[4] IN
      IF ~IsArr(SF, "i", <<Len(e.in.F), Len(e.in.F[1])>>) THEN {"remove_duplicate_vertices: faces shape"}
      ELSE Failing({<<"remove_duplicate_vertices: faces re-indexed", \A i \in Idx(e.in.F) : \A j \in Idx(e.in.F[1]) : SF.a[i][j] = sj[e.in.F[i][j] + 1]>>})

Jdg(s, e) == V(s,
    CASE e.op = "array_correspondence" -> CorrJ(e)
      [] e.op = "remove_unreferenced" -> UnrefJ(e)
      [] e.op = "remove_duplicate_vertices" -> DupJ(e))
S0(hist) == 0
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
