---------------------------- MODULE MC_StorageSp ----------------------------
(* The same for sparse arguments: a matrix is a list of stored triplets, row   *)
(* by row (csr) or column by column (csc), within a row in any order, with     *)
(* stored zeros and with entries split in two.  Readers:                      *)
(*   sum      adds what is stored at a place (the content)                    *)
(*   last, first   the last / first triplet stored at a place                 *)
(*   pattern  whether something is stored at a place                          *)
(*   sorted   looks an entry up by bisection in its row                       *)
(*   diag     the first triplet of a row whose column is not smaller           *)
(*   major    takes the lists for those of a csr matrix                       *)
(*   inplace  writes into the lists                                           *)
EXTENDS Storage, Json, TLC
VARIABLES impl, y
vars == <<impl, y>>
Impls == {"sum", "last", "first", "pattern", "sorted", "diag", "major", "inplace"}
SpLayouts == [fmt : {"csr", "csc"}, shuffled : BOOLEAN, zeros : BOOLEAN, split : BOOLEAN, ro : BOOLEAN]
SpFeatures(z) == (IF z.fmt = "csc" THEN {"fmt"} ELSE {}) \union {f \in {"shuffled", "zeros", "split", "ro"} : z[f]}
\* a 3 x 3 matrix with entries at all but two places
Mat(i, j) == IF <<i, j>> \in {<<1, 3>>, <<3, 1>>} THEN 0 ELSE 2 * (3 * i + j)
Places == {<<i, j>> : i \in 1..3, j \in 1..3}
Entry(i, j, z) == LET v == Mat(i, j) IN
    IF v = 0 THEN (IF z.zeros THEN << <<i, j, 0>> >> ELSE << >>)
    ELSE IF z.split THEN << <<i, j, v \div 2 - 1>>, <<i, j, v \div 2 + 1>> >> ELSE << <<i, j, v>> >>
Perm(z) == IF z.shuffled THEN <<2, 3, 1>> ELSE <<1, 2, 3>>
Line(k, z) == LET e(m) == IF z.fmt = "csr" THEN Entry(k, Perm(z)[m], z) ELSE Entry(Perm(z)[m], k, z) IN e(1) \o e(2) \o e(3)
Stored(z) == Line(1, z) \o Line(2, z) \o Line(3, z)
At(ts, i, j) == SelectSeq(ts, LAMBDA t : t[1] = i /\ t[2] = j)
Val(s, k) == IF s = << >> THEN 0 ELSE s[k][3]
RECURSIVE Bisect(_, _, _, _)
Bisect(row, j, lo, hi) == IF lo >= hi THEN lo
                          ELSE LET m == (lo + hi) \div 2 IN IF row[m][2] < j THEN Bisect(row, j, m + 1, hi) ELSE Bisect(row, j, lo, m)
ValAt(row, k, j) == IF k \in 1..Len(row) /\ row[k][2] = j THEN row[k][3] ELSE 0
Sum(s) == IF Len(s) = 0 THEN 0 ELSE IF Len(s) = 1 THEN s[1][3] ELSE s[1][3] + s[2][3]
Read(im, z, i, j) ==
    LET ts == Stored(z)  here == At(ts, i, j)  row == SelectSeq(ts, LAMBDA t : t[1] = i) IN
    CASE im = "sum" -> Sum(here)
      [] im = "last" -> Val(here, Len(here))
      [] im = "first" -> Val(here, 1)
      [] im = "pattern" -> IF here = << >> THEN 0 ELSE 1
      [] im = "sorted" -> ValAt(row, Bisect(row, j, 1, Len(row) + 1), j)
      [] im = "diag" -> LET s == SelectSeq(row, LAMBDA t : t[2] >= j) IN IF s # << >> /\ s[1][2] = j THEN Sum(here) ELSE 0
      [] im = "major" -> IF z.fmt = "csr" THEN Sum(here) ELSE Sum(At(ts, j, i))
      [] im = "inplace" -> IF z.ro THEN -1 ELSE Sum(here)
Plainly == [fmt |-> "csr", shuffled |-> FALSE, zeros |-> FALSE, split |-> FALSE, ro |-> FALSE]
Whole(im, z) == {<<p[1], p[2], Read(im, z, p[1], p[2])>> : p \in Places}
Table == [im \in Impls |-> [z \in SpLayouts |-> Whole(im, z)]]
Exposed(im, z) == Table[im][z] # Table[im][Plainly]
Init == impl \in Impls /\ y \in SpLayouts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Keeps == SpContent(Stored(y)) = {t \in {<<p[1], p[2], Mat(p[1], p[2])>> : p \in Places} : t[3] # 0}
Sound == impl = "sum" => ~Exposed(impl, y)
Sparest == \A z \in SpLayouts : SpFeatures(z) \subseteq SpFeatures(y) /\ Exposed(impl, z) => z = y
Emit == Exposed(impl, y) /\ Sparest => PrintT("GEN " \o ToJson([impl |-> impl, y |-> y]))
ASSUME \A im \in Impls \ {"sum"} : \E z \in SpLayouts : Exposed(im, z)
=============================================================================
