----------------------------- MODULE MC_Storage -----------------------------
(* Functions of two matrices (the answer is the list of their contents),      *)
(* implemented in one of the ways below, on arguments kept in every layout.   *)
(*   logical   reads entries through offset and strides                       *)
(*   flat      reads the memory from the first entry on as if row by row       *)
(*   base      reads the strides but from the start of the buffer              *)
(*   memory    takes entries in the order in which they lie in memory          *)
(*   pairs     combines the entries of both arguments in the order in which    *)
(*             those of the first lie in memory (flat reading of the second)   *)
(*   inplace   works in the argument's own memory                             *)
(*   scratch   works in memory shaped and typed like the first argument        *)
(*   narrow    combines entries (i*K + j) in the arguments' own integers       *)
(*   owner     works in place when the argument does not own its memory        *)
(* logical must answer alike in all layouts; every other one must be exposed,  *)
(* and for each the sparest layouts that expose it are emitted: the driver     *)
(* keeps the arguments of every real function that way.                       *)
EXTENDS Storage, Json, TLC, Functions
VARIABLES impl, ya, yb
vars == <<impl, ya, yb>>
Impls == {"logical", "flat", "base", "memory", "pairs", "inplace", "scratch", "narrow", "owner"}
N == 2
M == 3
A == [k \in 1..(N * M) |-> 10 + k]
B == [k \in 1..(N * M) |-> 20 + k]
W == 16                          \* narrow integers wrap here
\* the view that holds contents c in layout y, foreign entries everywhere else
Keep(y, c) ==
    LET w == View(y, N, M)
        at == [k \in 1..(N * M) |-> 1 + w.off + Offset(w.sh, w.str, k - 1)] IN
    [buf |-> [i \in 1..w.size |-> IF \E k \in 1..(N * M) : at[k] = i THEN c[CHOOSE k \in 1..(N * M) : at[k] = i] ELSE 0 - i],
     off |-> w.off, str |-> w.str, sh |-> w.sh]
Abs(x) == IF x < 0 THEN -x ELSE x
Places(v) == {1 + v.off + Offset(v.sh, v.str, k - 1) : k \in 1..(N * M)}
RECURSIVE Ascend(_)
Ascend(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascend(S \ {x})
Safe(v, i) == IF i \in 1..Len(v.buf) THEN v.buf[i] ELSE 999
Read(how, v) ==
    CASE how = "logical" -> Content(v)
      [] how = "flat" -> [k \in 1..(N * M) |-> Safe(v, v.off + k)]
      [] how = "base" -> [k \in 1..(N * M) |-> Safe(v, 1 + Offset(v.sh, v.str, k - 1))]
      [] how = "memory" -> LET p == Ascend(Places(v)) IN [k \in 1..(N * M) |-> v.buf[p[k]]]
\* position, in the row-by-row order, of the k-th entry in memory order
Rank(v) == LET p == Ascend(Places(v)) IN [k \in 1..(N * M) |-> CHOOSE i \in 1..(N * M) : 1 + v.off + Offset(v.sh, v.str, i - 1) = p[k]]
\* where a row-by-row entry lies in memory order
Unrank(v, c) == LET r == Rank(v) IN [i \in 1..(N * M) |-> c[CHOOSE k \in 1..(N * M) : r[k] = i]]
Key(x, y, w) == LET z == x * 10 + y IN IF w THEN z % W ELSE z
\* layouts by number
Flag(i, k) == (i \div 2^k) % 2 = 1
L == [i \in 1..64 |-> [order |-> IF Flag(i - 1, 0) THEN "F" ELSE "C", step |-> Flag(i - 1, 1), rev |-> Flag(i - 1, 2),
                       pad |-> Flag(i - 1, 3), ro |-> Flag(i - 1, 4), narrow |-> Flag(i - 1, 5)]]
ASSUME Range(L) = Layouts
KA == [y \in 1..64 |-> Keep(L[y], A)]
KB == [y \in 1..64 |-> Keep(L[y], B)]
Hows == {"logical", "flat", "base", "memory"}
RA == [how \in Hows |-> [y \in 1..64 |-> Read(how, KA[y])]]
RB == [how \in Hows |-> [y \in 1..64 |-> Read(how, KB[y])]]
Back == [y \in 1..64 |-> Unrank(KA[y], [k \in 1..(N * M) |-> k])]
Answer(im, p, q) ==
    CASE im \in Hows -> [k \in 1..(N * M) |-> <<RA[im][p][k], RB[im][q][k]>>]
      [] im = "pairs" -> [i \in 1..(N * M) |-> <<RA["memory"][p][Back[p][i]], RB["memory"][q][Back[p][i]]>>]
      [] im = "inplace" -> IF L[p].ro \/ L[q].ro THEN <<"error">> ELSE [k \in 1..(N * M) |-> <<A[k], B[k]>>]
      [] im = "owner" -> IF (L[p].pad /\ L[p].ro) \/ (L[q].pad /\ L[q].ro) THEN <<"error">> ELSE [k \in 1..(N * M) |-> <<A[k], B[k]>>]
      [] im = "scratch" -> [k \in 1..(N * M) |-> Key(A[k], 0, L[p].narrow)]
      [] im = "narrow" -> [k \in 1..(N * M) |-> Key(A[k], B[k], L[p].narrow /\ L[q].narrow)]
Reference(im) ==
    CASE im = "scratch" -> [k \in 1..(N * M) |-> Key(A[k], 0, FALSE)]
      [] im = "narrow" -> [k \in 1..(N * M) |-> Key(A[k], B[k], FALSE)]
      [] OTHER -> [k \in 1..(N * M) |-> <<A[k], B[k]>>]
Exposed(im, p, q) == Answer(im, p, q) # Reference(im)
Init == impl \in Impls /\ ya \in 1..64 /\ yb \in 1..64
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Keeps == Content(KA[ya]) = A /\ Content(KB[yb]) = B
Sound == impl = "logical" => ~Exposed(impl, ya, yb)
\* the layouts with fewer unusual features
LessThan == [y \in 1..64 |-> {z \in 1..64 : Features(L[z]) \subseteq Features(L[y])}]
Sparest == \A p \in LessThan[ya], q \in LessThan[yb] : Exposed(impl, p, q) => p = ya /\ q = yb
Emit == Exposed(impl, ya, yb) /\ Sparest => PrintT("GEN " \o ToJson([impl |-> impl, a |-> L[ya], b |-> L[yb]]))
\* no wrong implementation escapes
ASSUME \A im \in Impls \ {"logical"} : \E p, q \in 1..64 : Exposed(im, p, q)
=============================================================================
