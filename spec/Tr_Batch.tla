------------------------------ MODULE Tr_Batch ------------------------------
(* P37: recorded batches.  The state holds the answers to the queries asked    *)
(* alone, as in Batch.tla.                                                     *)
EXTENDS Batch, Outcome
VARIABLES h, l, st, bad
Tag(what, bs) == {what \o ": " \o b : b \in bs}
Step(s, i, bs) == [st |-> s, stop |-> FALSE, bad |-> Tag(i.what, bs \union (IF i.raised = "" THEN {} ELSE {"no answer"}))]
Jdg(s, e) == LET i == e.in IN
    CASE e.op = "alone" -> Step(Append(s, i.res), i, IF Len(s) = i.q /\ i.res >= 0 THEN {} ELSE {"a single query has no answer of its own"})
      [] e.op = "batch" -> Step(s, i, Broken(BatchClauses(s, [k \in DOMAIN i.qs |-> i.qs[k] + 1], i.res)))
      [] e.op = "long" -> Step(s, i, Broken(BatchClauses(s, [k \in DOMAIN i.qs |-> i.qs[k] + 1], i.res)) \union
                                     (IF i.got = i.n THEN {} ELSE {"not one answer for each query"}))
      [] e.op = "sum" -> Step(s, i, IF i.ok THEN {} ELSE {"the matrix is not the sum of those of its elements"})
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
