------------------------------- MODULE Outcome ------------------------------
(* How recorded Python values appear in traces, and helpers to state total    *)
(* verdicts as sets of named clauses.                                         *)
(*   [t |-> "arr", k |-> "i"/"f"/"b", sh |-> shape, a |-> nested sequences]   *)
(*   [t |-> "sp", sh |-> <<m,n>>, e |-> << <<i,j,"v">>, .. >>]  (row-major,    *)
(*                                    0-based, duplicates summed, no zeros)   *)
(*   [t |-> "int", v |-> 3]  [t |-> "num", v |-> "1/2"]  [t |-> "bool", v |-> TRUE] *)
(*   [t |-> "seq", a |-> <<..>>]  [t |-> "none"]  [t |-> "other"]             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceLines == ndJsonDeserialize(IOEnv.TRACE_FILE)    \* the recorded histories

Ok(s)     == [bad |-> {}, st |-> s, stop |-> FALSE]
\* clauses: a set of <<name, holds>>; names of those that do not hold
Failing(cl) == {c[1] : c \in {d \in cl : ~d[2]}}
V(s, b)   == [bad |-> b, st |-> s, stop |-> FALSE]
Stop(s, b) == [bad |-> b, st |-> s, stop |-> b # {}]

IsArr(o, k, sh) == o.t = "arr" /\ o.k = k /\ o.sh = sh
IsArrK(o, k, nd) == o.t = "arr" /\ o.k = k /\ Len(o.sh) = nd
IsSp(o, sh)     == o.t = "sp" /\ o.sh = sh
IsNum(o)        == o.t = "num" \/ o.t = "int"
At(s, i)        == s[i + 1]                      \* 0-based access
Idx(s)          == 1..Len(s)
Range(s)        == {s[i] : i \in 1..Len(s)}
Injective(s)    == Cardinality(Range(s)) = Len(s)
Min2(a, b)      == IF a < b THEN a ELSE b
Max2(a, b)      == IF a > b THEN a ELSE b
SetMax(S)       == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S)       == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
