-------------------------------- MODULE Wrap --------------------------------
(* What the Python side of the compiled algorithms promises around them:      *)
(* the order of vertices handed to the remesher, the search for a cage, and   *)
(* the trajectory of a sweep.                                                 *)
EXTENDS BigRat, Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Once(_)                        \* the entries of s without repetition, first occurrences
Once(s) == IF s = << >> THEN << >> ELSE LET r == Once(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
           IN IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)
Elems(s) == {s[i] : i \in 1..Len(s)}

(* a search for the smallest offset that works: lo does not work (or is 0),   *)
(* hi works (or is the largest size), ans[i] says whether the i-th does not   *)
Half(x, y) == RDiv(RAdd(x, y), "2")
Search(top, ans) ==
    LET f[i \in 0..Len(ans)] ==
            IF i = 0 THEN [lo |-> "0", hi |-> top, found |-> FALSE, last |-> "0"]
            ELSE LET p == f[i-1]  d == Half(p.lo, p.hi)
                 IN IF ans[i] THEN [lo |-> d, hi |-> p.hi, found |-> p.found, last |-> d]
                    ELSE [lo |-> p.lo, hi |-> d, found |-> TRUE, last |-> d]
    IN f
=============================================================================
