---------------------------- MODULE MC_Envelope -----------------------------
(* P42: slicing one edge at a time, pairs and edges in any order,             *)
(* ends with pieces that are pure, fill the simplex, and give every material  *)
(* the same share whatever the order.                                         *)
EXTENDS Envelope, Json
CONSTANTS Corners, Materials, Vals, Base, Pick
VARIABLES D, pieces, done, cur      \* cur: the pair being sliced, done: those before
ValsA == {-2, -1, 0, 1, 3}
ValsB == {-1, 0, 1, 2}
vars == <<D, pieces, done, cur>>
Pairs == {<<a, b>> \in (1..Materials) \X (1..Materials) : a < b}
Sides == {<<i, k>> \in (1..Corners) \X (1..Corners) : i < k}
Whole == [i \in 1..Corners |-> Unit1(Corners, i)]
\* the last material is the constant one
Rows == [1..(Materials - 1) -> Vals]
Code(d) == LET f[i \in 0..Corners] == IF i = 0 THEN 0 ELSE LET g[m \in 0..(Materials - 1)] == IF m = 0 THEN f[i-1] ELSE (g[m-1] * 11 + d[i][m] + 5) % 10007 IN g[Materials - 1] IN f[Corners]
Init == /\ \E d \in [1..Corners -> Rows] :
              /\ Code(d) % Pick = 0
              /\ D = [i \in 1..Corners |-> [m \in 1..Materials |-> IF m = Materials THEN ToString(Base) ELSE ToString(d[i][m])]]
        /\ pieces = {Whole} /\ done = {} /\ cur \in Pairs
Open(p) == {P \in pieces : \E e \in Sides : Crossed(D, P, e[1], e[2], p[1], p[2])}
Cut == LET P == CHOOSE P \in Open(cur) : TRUE
       IN \E e \in Sides : /\ Crossed(D, P, e[1], e[2], cur[1], cur[2])
                           /\ pieces' = (pieces \ {P}) \cup Halves(D, P, e[1], e[2], cur[1], cur[2])
Next == \/ Open(cur) # {} /\ Cut /\ UNCHANGED <<D, done, cur>>
        \/ Open(cur) = {} /\ cur \notin done /\ done' = done \cup {cur} /\ cur' \in (IF done' = Pairs THEN {cur} ELSE Pairs \ done') /\ UNCHANGED <<D, pieces>>
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(S) == IF S = {} THEN "0" ELSE LET P == CHOOSE P \in S : TRUE IN RAdd(Share(P), Total(S \ {P}))
Fills == REq(Total(pieces), "1") /\ \A P \in pieces : RSgn(Share(P)) = 1
Inside == \A P \in pieces : \A i \in 1..Corners : \A j \in 1..Corners : RSgn(P[i][j]) >= 0
Done == done = Pairs
Stays == \A p \in done : Open(p) = {}      \* later cuts never undo earlier ones
\* a canonical run: always the first crossed edge
RECURSIVE Run(_)
Run(S) == LET Q == {<<P, a, b, i, k>> \in S \X (1..Materials) \X (1..Materials) \X (1..Corners) \X (1..Corners) : a < b /\ i < k /\ Crossed(D, P, i, k, a, b)}
          IN IF Q = {} THEN S ELSE LET q == CHOOSE q \in Q : TRUE IN Run((S \ {q[1]}) \cup Halves(D, q[1], q[4], q[5], q[2], q[3]))
ShareOf(S, m) == Total({P \in S : Labels(D, P) # {} /\ MinOf(Labels(D, P)) = m})
Pure == Done => \A P \in pieces : Labels(D, P) # {}
Same == Done => LET R == Run({Whole}) IN \A m \in 1..Materials : REq(ShareOf(pieces, m), ShareOf(R, m))
Mean2 == Done => REq(RSum([m \in 1..Materials |-> ShareOf(pieces, m)]), "1")
Emit == (pieces = {Whole} /\ done = {} /\ cur = <<1, 2>>) => PrintT("GEN " \o ToJson(D))
=============================================================================
