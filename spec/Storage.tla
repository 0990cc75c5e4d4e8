------------------------------ MODULE Storage -------------------------------
(* How a caller may keep the contents of an argument, and what those contents *)
(* are.  A dense array is a view [buf, off, str, sh] of a buffer: entry       *)
(* (i1..ik) is buf[off + sum i_d * str_d].  A sparse matrix is a list of       *)
(* stored triplets whose entries at one place add up.                         *)
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
Prod[s \in Seq(Int)] == IF s = << >> THEN 1 ELSE Head(s) * Prod[Tail(s)]
\* k-th entry (from 0) of the view in row-by-row order
RECURSIVE Offset(_, _, _)
Offset(sh, str, k) == IF sh = << >> THEN 0
                      ELSE LET d == Len(sh) IN (k % sh[d]) * str[d] + Offset(SubSeq(sh, 1, d - 1), SubSeq(str, 1, d - 1), k \div sh[d])
Content(v) == [k \in 1..Prod[v.sh] |-> v.buf[1 + v.off + Offset(v.sh, v.str, k - 1)]]
\* the value of a sparse matrix: zero sums leave no trace
Add(s, t) == LET old == {x \in s : x[1] = t[1] /\ x[2] = t[2]} IN
             (s \ old) \union {<<t[1], t[2], t[3] + (IF old = {} THEN 0 ELSE (CHOOSE x \in old : TRUE)[3])>>}
RECURSIVE SumUp(_, _)
SumUp(ts, s) == IF ts = << >> THEN {x \in s : x[3] # 0} ELSE SumUp(Tail(ts), Add(s, Head(ts)))
SpContent(ts) == SumUp(ts, {})

(* The storages a layout [order, step, rev, pad, ro, narrow] stands for:      *)
(* order "C"/"F": which dimension is contiguous; step: every entry is          *)
(* followed by a foreign one, every row by a foreign row; rev: both dimensions *)
(* run backwards in memory; pad: the data start inside a larger buffer; ro:   *)
(* not writable; narrow: indices are kept in narrower integers.               *)
Plain == [order |-> "C", step |-> FALSE, rev |-> FALSE, pad |-> FALSE, ro |-> FALSE, narrow |-> FALSE]
Layouts == [order : {"C", "F"}, step : BOOLEAN, rev : BOOLEAN, pad : BOOLEAN, ro : BOOLEAN, narrow : BOOLEAN]
Features(y) == (IF y.order = "F" THEN {"order"} ELSE {}) \union {f \in {"step", "rev", "pad", "ro", "narrow"} : y[f]}
\* strides and offset of a matrix of n rows and m columns (>= 1) kept that way
View(y, n, m) ==
    LET u == IF y.step THEN 2 ELSE 1
        big0 == u * n  big1 == u * m
        s0 == IF y.order = "C" THEN u * big1 ELSE u
        s1 == IF y.order = "C" THEN u ELSE u * big0
        p == IF y.pad THEN 3 ELSE 0
        off == p + (IF y.rev THEN s0 * (n - 1) + s1 * (m - 1) ELSE 0) IN
    [off |-> off, str |-> IF y.rev THEN <<-s0, -s1>> ELSE <<s0, s1>>, size |-> p + big0 * big1 + p, sh |-> <<n, m>>]
=============================================================================
