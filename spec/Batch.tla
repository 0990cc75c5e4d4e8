------------------------------- MODULE Batch --------------------------------
(* A function that answers a list of queries: entry i of its answer is what   *)
(* it answers to the i-th query asked alone.  Answers are opaque tokens.       *)
EXTENDS Integers, Sequences, FiniteSets
BatchClauses(alone, qs, answer) ==
    {<<"not one answer for each query", Len(answer) = Len(qs)>>,
     <<"an answer depends on the other queries of the batch",
        \A i \in 1..(IF Len(answer) < Len(qs) THEN Len(answer) ELSE Len(qs)) : answer[i] = alone[qs[i]]>>}
Broken(cl) == {c[1] : c \in {d \in cl : ~d[2]}}
=============================================================================
