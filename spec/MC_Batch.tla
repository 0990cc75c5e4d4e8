------------------------------ MODULE MC_Batch ------------------------------
(* Query functions implemented in one of the ways below, on every batch of up *)
(* to MaxLen queries.  A query is a point in the plane; query 3 is special     *)
(* (it hits nothing, lies on the data, ...).                                   *)
(*   rowwise  answers each query                                              *)
(*   carry    does not reset its best answer when the query is special         *)
(*   stop     leaves the loop at a special query                              *)
(*   any      takes another path for all when one query is special             *)
(*   all      handles special queries only when all are                        *)
(*   first    takes a parameter from the first query                          *)
(*   extent   scales a tolerance with the largest query                       *)
(*   drop     works in blocks and forgets the incomplete last one              *)
(*   block    works in blocks and counts rows from the start of the block      *)
(*   unique   answers each distinct query once, in order                       *)
(*   sorted   answers in the order of the queries, not as given                *)
(*   turned   takes a square list of queries for its transpose                 *)
(*   squeeze  answers a single query with a scalar                            *)
(*   warm     starts from the previous query's answer when queries repeat      *)
(* rowwise must never break Batch.tla, and each shortest batch that exposes    *)
(* another one is emitted; the driver puts every real function through it,     *)
(* and through its stretches to real block sizes.                              *)
EXTENDS Batch, TLC, Json
CONSTANTS MaxLen
VARIABLES impl, qs
vars == <<impl, qs>>
Impls == {"rowwise", "carry", "stop", "any", "all", "first", "extent", "drop", "block", "unique", "sorted", "turned", "squeeze", "warm"}
Q == << <<1, 4>>, <<2, 3>>, <<5, 1>> >>
Special(q) == q = 3
Val(p) == 10 * p[1] + p[2]
F(q) == IF Special(q) THEN 0 ELSE Val(Q[q])
Alone == [q \in 1..3 |-> F(q)]
C == 2
Rows(s) == [i \in DOMAIN s |-> F(s[i])]
First(s, P(_)) == IF \E i \in DOMAIN s : P(s[i]) THEN CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j]) ELSE Len(s) + 1
Carry[s \in Seq(1..3)] == IF s = << >> THEN << >>
    ELSE LET c == Carry[SubSeq(s, 1, Len(s) - 1)]  q == s[Len(s)] IN Append(c, IF Special(q) /\ Len(c) > 0 THEN c[Len(c)] ELSE F(q))
Count(s, q) == Cardinality({i \in DOMAIN s : s[i] = q})
Several(k, q) == [i \in 1..k |-> F(q)]
Run(im, s) ==
    CASE im = "rowwise" -> Rows(s)
      [] im = "carry" -> Carry[s]
      [] im = "stop" -> [i \in DOMAIN s |-> IF i < First(s, Special) THEN F(s[i]) ELSE 0]
      [] im = "any" -> [i \in DOMAIN s |-> IF (\E j \in DOMAIN s : Special(s[j])) /\ ~Special(s[i]) THEN F(s[i]) + 1 ELSE F(s[i])]
      [] im = "all" -> [i \in DOMAIN s |-> IF Special(s[i]) /\ \E j \in DOMAIN s : ~Special(s[j]) THEN Val(Q[3]) ELSE F(s[i])]
      [] im = "first" -> [i \in DOMAIN s |-> IF Special(s[i]) THEN F(s[i]) ELSE 10 * Q[s[i]][1] + Q[s[1]][2]]
      [] im = "extent" -> [i \in DOMAIN s |-> IF s[i] = 1 /\ \E j \in DOMAIN s : s[j] > 1 THEN 0 ELSE F(s[i])]
      [] im = "drop" -> [i \in DOMAIN s |-> IF Len(s) > C /\ i > C * (Len(s) \div C) THEN -1 ELSE F(s[i])]
      [] im = "block" -> [i \in DOMAIN s |-> F(s[1 + ((i - 1) % C)])]
      [] im = "unique" -> LET u == {q \in 1..3 : Count(s, q) > 0} IN
                          IF u = {} THEN << >> ELSE IF Cardinality(u) = Len(s) THEN Rows(s)
                          ELSE (IF 1 \in u THEN <<F(1)>> ELSE << >>) \o (IF 2 \in u THEN <<F(2)>> ELSE << >>) \o (IF 3 \in u THEN <<F(3)>> ELSE << >>)
      [] im = "sorted" -> Several(Count(s, 1), 1) \o Several(Count(s, 2), 2) \o Several(Count(s, 3), 3)
      [] im = "turned" -> IF Len(s) = 2 THEN [i \in 1..2 |-> IF Special(s[i]) THEN 0 ELSE 10 * Q[s[1]][i] + Q[s[2]][i]] ELSE Rows(s)
      [] im = "squeeze" -> IF Len(s) = 1 THEN << >> ELSE Rows(s)
      [] im = "warm" -> [i \in DOMAIN s |-> IF i > 1 /\ s[i] = s[i - 1] THEN F(s[i]) + 1 ELSE F(s[i])]
Alarm(im, s) == Broken(BatchClauses(Alone, s, Run(im, s))) # {}
Init == impl \in Impls /\ qs = << >>
Next == Len(qs) < MaxLen /\ ~Alarm(impl, qs) /\ \E q \in 1..3 : qs' = Append(qs, q) /\ UNCHANGED impl
Spec == Init /\ [][Next]_vars
Sound == impl = "rowwise" => ~Alarm(impl, qs)
Emit == Alarm(impl, qs) => PrintT("GEN " \o ToJson([impl |-> impl, qs |-> qs]))
ASSUME \A im \in Impls \ {"rowwise"} : \E n \in 0..3 : \E s \in [1..n -> 1..3] : Alarm(im, s)
=============================================================================
