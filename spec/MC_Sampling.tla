----------------------------- MODULE MC_Sampling ----------------------------
(* Inverse transform selection over all small weight vectors and a lattice of *)
(* draws: exact proportions, never an element of weight zero; the point map   *)
(* sends a lattice of draws evenly into the cells of a triangle.              *)
EXTENDS Sampling, Json
CONSTANTS N
VARIABLES w
Init == w \in {x \in [1..4 -> 0..3] : \E i \in 1..4 : x[i] > 0}
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
Wr == [i \in 1..4 |-> RNum(w[i])]
Total == w[1] + w[2] + w[3] + w[4]
Draw(k) == RDiv(RNum(k), RNum(Total))
NeverZero == \A k \in 0..(Total - 1) : w[Pick(Wr, Draw(k))] # 0 /\ w[Pick(Wr, RAdd(Draw(k), "1/1000"))] # 0
Proportional == \A i \in 1..4 : Cardinality({k \in 0..(Total - 1) : Pick(Wr, Draw(k)) = i}) = w[i]
\* midpoints of an N x N lattice of draws
Pts == TLCEval([k \in 1..(N * N) |-> LET a == (k - 1) \div N  b == (k - 1) % N IN
          TLCEval(Cell(Bary(RSqrt(RDiv(RNum(2 * a + 1), RNum(2 * N)), 40), RDiv(RNum(2 * b + 1), RNum(2 * N))), 1))])
ASSUME \A c \in Cells(3, 1) : LET q == Cardinality({k \in 1..(N * N) : Pts[k] = c}) IN q * 4 > N * N - 8 * N /\ q * 4 < N * N + 8 * N
=============================================================================
