----------------------------- MODULE MC_Quadtree -----------------------------
(* Refinement as a state machine.  A(a,b) is maintained incrementally by the  *)
(* inheritance rule: a new child takes over the neighbours of its parent that *)
(* face it.  Checked: A is always the geometric face adjacency, the leaves    *)
(* tile the root, gradedness is invariant.                                    *)
EXTENDS Quadtree, Json
CONSTANTS Dm, Steps, MaxLev
VARIABLES T, A, graded, hist
vv == <<T, A, graded, hist>>
Init == T = {Root0(Dm)} /\ A = [p \in {<<Root0(Dm), Root0(Dm)>>} |-> 0] /\ graded \in BOOLEAN /\ hist = <<>>
\* child m of c lies on side s of c
OnSide(c, m, s) == Bit(m, (s + 1) \div 2) = (IF s % 2 = 0 THEN 1 ELSE 0)
Flip(m, s) == LET k == (s + 1) \div 2 IN IF Bit(m, k) = 0 THEN m + Pow2(k - 1) ELSE m - Pow2(k - 1)
Inherit(TT, AA, c) ==
    LET new == Kids(c)
        cm(x) == CHOOSE m \in 0..(Pow2(Dm) - 1) : Child(c, m) = x
        R(x, o) == \* side of x on which the old cell o lies
            LET s == AA[<<c, o>>] IN
            IF s = 0 \/ ~OnSide(c, cm(x), s) THEN 0
            ELSE IF o[1] <= c[1] THEN s
            ELSE LET u == Up(o, o[1] - c[1] - 1)  um == CHOOSE m \in 0..(Pow2(Dm) - 1) : Child(Parent(u), m) = u
                 IN IF Flip(um, s) = cm(x) THEN s ELSE 0
        Sib(x, y) == LET D == {k \in 1..Dm : x[2][k] # y[2][k]} IN
                     IF Cardinality(D) # 1 THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN IF y[2][k] > x[2][k] THEN 2 * k ELSE 2 * k - 1
        NT == TT \cup new
    IN [p \in NT \X NT |-> IF p[1] \in TT /\ p[2] \in TT THEN AA[p]
                           ELSE IF p[1] \in new /\ p[2] \in new THEN Sib(p[1], p[2])
                           ELSE IF p[1] \in new THEN R(p[1], p[2]) ELSE Opp(R(p[2], p[1]))]
\* the recursion of the algorithm: divide, then divide coarse leaf neighbours
RECURSIVE Rec(_, _, _, _)
Rec(TT, AA, c, g) ==
    LET T1 == Split(TT, c)  A1 == Inherit(TT, AA, c)
        Fix(r, o) == IF Child(o, 0) \in r[1] THEN r ELSE Rec(r[1], r[2], o, g)
        RECURSIVE Go(_, _)
        Go(r, S) == IF S = {} THEN r ELSE LET o == CHOOSE o \in S : TRUE IN Go(Fix(r, o), S \ {o})
    IN IF ~g THEN <<T1, A1>> ELSE Go(<<T1, A1>>, {o \in Leaves(TT) : o[1] < c[1] /\ AA[<<c, o>>] # 0})
Divide == /\ Len(hist) < Steps
          /\ \E c \in Leaves(T) : /\ c[1] < MaxLev
                /\ LET r == Rec(T, A, c, graded) IN T' = r[1] /\ A' = r[2]
                /\ hist' = Append(hist, c) /\ UNCHANGED graded
Spec == Init /\ [][Divide]_vv
AdjExact == \A p \in DOMAIN A : A[p] = IF Below(p[1], p[2]) \/ Below(p[2], p[1]) THEN 0 ELSE Side(p[1], p[2])
RECURSIVE Vol(_)
Vol(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Pow2(Dm * (MaxLev - c[1])) + Vol(S \ {c})
Tiles == TreeLike(T, Dm) /\ Vol(Leaves(T)) = Pow2(Dm * MaxLev)
GradedInv == graded => Graded(T)
SameAsGSplit == [][graded => \E c \in Leaves(T) : T' = GSplit(T, c)]_vv
Emit == Len(hist) = Steps => PrintT("GEN " \o ToJson([graded |-> graded, seq |-> hist]))
=============================================================================
