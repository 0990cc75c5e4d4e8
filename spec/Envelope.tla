------------------------------ MODULE Envelope ------------------------------
(* Upper envelopes: a simplex whose corners carry a value for each material   *)
(* is sliced until each piece has a material that is nowhere exceeded in it.  *)
(* A corner of a piece is its barycentric tuple in the simplex; all numbers   *)
(* are exact.                                                                 *)
EXTENDS BigRat, Naturals, Integers, Sequences, FiniteSets, TLC

Unit1(n, i) == [j \in 1..n |-> IF j = i THEN "1" ELSE "0"]
Value(D, c, m) == RSum([i \in 1..Len(c) |-> RMul(c[i], D[i][m])])
Gap(D, c, a, b) == RSub(Value(D, c, a), Value(D, c, b))

(* exact determinants of small matrices, by the first row                     *)
Minor(M, j) == [r \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[r + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE DetN(_)
DetN(M) == IF Len(M) = 1 THEN M[1][1]
           ELSE RSum([j \in 1..Len(M) |-> IF RSgn(M[1][j]) = 0 THEN "0" ELSE RMul(IF j % 2 = 1 THEN M[1][j] ELSE RNeg(M[1][j]), DetN(Minor(M, j)))])
Share(P) == RAbs(DetN(P))                   \* part of the simplex that piece P occupies

(* the pieces after putting a new corner on the edge between corners i and k  *)
Between(D, P, i, k, a, b) ==
    LET x == Gap(D, P[i], a, b)  y == Gap(D, P[k], a, b)  t == RDiv(x, RSub(x, y))
    IN TLCEval([j \in 1..Len(P[i]) |-> RAdd(P[i][j], RMul(t, RSub(P[k][j], P[i][j])))])
Crossed(D, P, i, k, a, b) == RSgn(Gap(D, P[i], a, b)) * RSgn(Gap(D, P[k], a, b)) = -1
Halves(D, P, i, k, a, b) == LET z == Between(D, P, i, k, a, b) IN {[P EXCEPT ![i] = z], [P EXCEPT ![k] = z]}

Dominates(D, P, a) == \A i \in 1..Len(P) : \A b \in 1..Len(D[1]) : RSgn(Gap(D, P[i], a, b)) >= 0
Labels(D, P) == {a \in 1..Len(D[1]) : Dominates(D, P, a)}
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
=============================================================================
