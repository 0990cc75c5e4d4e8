------------------------------ MODULE Tr_Colors -----------------------------
(* P31: recorded colour maps and lookups.                                     *)
EXTENDS Colors, Outcome
VARIABLES h, l, st, bad
MapJ(e) == LET i == e.in  o == e.out IN
    IF ~i.interp THEN
       LET T == IF i.n = 0 THEN Largest(i.name) ELSE Brewer[i.name][i.n] IN
       IF ~(o.t = "arr" /\ o.sh = <<Len(T), 3>>) THEN {"colormap: shape"}
       ELSE Failing({<<"colormap: not the published table", \A r \in 1..Len(T), c \in 1..3 : REq(o.a[r][c], RNum(T[r][c]))>>})
    ELSE IF ~(o.t = "arr" /\ o.sh = <<i.n, 3>>) THEN {"colormap: shape"}
    ELSE LET R == Resample(Largest(i.name), i.n) IN
       Failing({<<"colormap: not the cubic resampling of the largest table", \A r \in 1..i.n, c \in 1..3 : RNear(o.a[r][c], R[r][c], "1/100000000", "0")>>,
                <<"colormap: not a colour", \A r \in 1..i.n, c \in 1..3 : RIsNum(o.a[r][c]) /\ RLe("0", o.a[r][c]) /\ RLe(o.a[r][c], "255")>>})
\* a requested table that does not exist must be refused
MissJ(e) == IF e.exc = "" THEN {"colormap: made up a table"} ELSE {}
ApplyJ(e) == LET i == e.in  o == e.out  n == Len(i.f)  N == Len(i.C)  nm == "apply_colormap: " IN
    IF ~(o.t = "arr" /\ o.sh = <<n, 3>>) THEN {nm \o "shape"}
    ELSE IF N = 1 THEN Failing({<<nm \o "constant table", \A r \in 1..n : IsRow(o.a[r], i.C[1], "0")>>, <<nm \o "argument modified", i.same>>})
    ELSE LET fl(x) == IF i.log THEN RMax(x, i.eps) ELSE x
             lo == fl(i.lo)  hi == fl(i.hi)
             flat == RLe(RSub(hi, lo), RMul(i.gap, RMax(RAbs(lo), RAbs(hi))))
             x == TLCEval(IF flat THEN << >> ELSE IF i.log THEN i.nodes ELSE Even(lo, hi, N))
             F == TLCEval([r \in 1..n |-> Clamp(i.f[r], lo, hi)])
             tol == RMul("1/100000000", RAdd("1", RDiv(RMul("1/1000000", RMax(RAbs(lo), RAbs(hi))), RSub(hi, lo))))
             ints == \A r \in 1..n, c \in 1..3 : RIsInt(o.a[r][c])
         IN Failing({<<nm \o "argument modified", i.same>>, <<nm \o "not whole channel values", ints>>,
              <<"harness: nodes not geometric", flat \/ ~i.log \/ Geometric(x, lo, hi, "1/1000000000")>>,
              <<nm \o "not the colour of the table", ints => \A r \in 1..n :
                 IF flat THEN \E j \in 1..N : IF i.lin THEN \A c \in 1..3 : Rounds(i.C[1][c], o.a[r][c], "1/1000") ELSE IsRow(o.a[r], i.C[j], "1/100000000")
                 ELSE IF i.log THEN
                    LET b == PieceOf(x, F[r])  t == Theta(x, F[r], b) IN
                    IF RLe(t, "1/100000000") THEN IsRow(o.a[r], i.C[b], "1/10000")
                    ELSE IF RLe("99999999/100000000", t) THEN IsRow(o.a[r], i.C[b + 1], "1/10000")
                    ELSE IF ~i.lin THEN IsRow(o.a[r], i.C[b], "1/100000000") \/ IsRow(o.a[r], i.C[b + 1], "1/100000000")
                    ELSE \A c \in 1..3 : RLe(RSub(RMin(i.C[b][c], i.C[b + 1][c]), "5001/10000"), o.a[r][c]) /\ RLe(o.a[r][c], RAdd(RMax(i.C[b][c], i.C[b + 1][c]), "5001/10000"))
                 ELSE IF i.lin THEN LinearColour(i.C, x, F[r], o.a[r], RMul("1000", tol)) ELSE StepColour(i.C, x, F[r], o.a[r], tol)>>})
Jdg(s, e) == CASE e.op = "map" -> V(s, MapJ(e)) [] e.op = "scribble" -> Ok(s) [] e.op = "miss" -> V(s, MissJ(e)) [] e.op = "apply" -> V(s, ApplyJ(e))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
