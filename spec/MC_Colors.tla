------------------------------ MODULE MC_Colors -----------------------------
(* Published schemes: shapes, ranges, and their structure; the resampling     *)
(* passes through the table and reproduces cubics; lookups in all small       *)
(* tables hit end colours at the ends, never skip backwards and are total.    *)
EXTENDS Colors, Json
VARIABLES k, q
Kinds == {"scheme", "cubic", "look"}
Names == DOMAIN Brewer
Init == \/ k = "scheme" /\ q \in {<<nm, n>> \in Names \X (1..12) : n <= Len(Brewer[nm])}
        \/ k = "cubic" /\ q \in {<<N, a, b>> : N \in 4..8, a \in -2..2, b \in -1..1}
        \/ k = "look" /\ q \in {<<C, f2>> : C \in UNION {[1..n -> {0, 7, 255}] : n \in 2..4}, f2 \in -1..13}
Next == FALSE /\ UNCHANGED <<k, q>>
Spec == Init /\ [][Next]_<<k, q>>
Tb == Brewer[q[1]][q[2]]
Lum(c) == 299 * c[1] + 587 * c[2] + 114 * c[3]
SchemeOk == k = "scheme" =>
    /\ Len(Tb) = q[2] /\ \A i \in 1..Len(Tb) : Len(Tb[i]) = 3 /\ \A c \in 1..3 : Tb[i][c] \in 0..255
    /\ Cardinality({Tb[i] : i \in 1..Len(Tb)}) = Len(Tb)
    /\ (Names = Qualitative \cup Sequential \cup Diverging)
    /\ (q[1] \in Qualitative => \A i \in 1..Len(Tb) : Tb[i] = Largest(q[1])[i])
    /\ (q[1] \in Sequential => \A i \in 1..(Len(Tb) - 1) : Lum(Tb[i]) > Lum(Tb[i + 1]))
    /\ ((q[1] \in Diverging /\ Len(Tb) >= 3 /\ q[1] # "Spectral") => LET m == (Len(Tb) + 1) \div 2 IN
            \A i \in 1..Len(Tb) : Lum(Tb[m]) >= Lum(Tb[i]) \/ (Len(Tb) % 2 = 0 /\ Lum(Tb[m + 1]) >= Lum(Tb[i])))
    /\ (Len(Tb) >= 4 => LET R == Resample(Tb, 2 * Len(Tb) - 1) IN
            (\A i \in 1..Len(Tb) : \A c \in 1..3 : R[2 * i - 1][c] = RNum(Tb[i][c]))
            /\ (\A i \in 1..Len(R) : \A c \in 1..3 : RLe("0", R[i][c]) /\ RLe(R[i][c], "255")))
Cubic(a, b, x) == RAdd(RMul(RNum(a), RMul(x, RMul(x, x))), RAdd(RMul(RNum(b), RMul(x, x)), x))
CubicOk == k = "cubic" => LET y == [i \in 1..q[1] |-> Cubic(q[2], q[3], RNum(i - 1))]  m == Curvature(y) IN
    \A p \in {"0", "1/3", "1/2", "7/5", "5/2", "3"} : SplineAt(y, m, p) = Cubic(q[2], q[3], p)
\* values are quarters of the range 0..3 or so: nodes at whole numbers
C3 == [i \in 1..Len(q[1]) |-> <<RNum(q[1][i]), RNum(255 - q[1][i]), "9">>]
Fv == RDiv(RNum(q[2]), "4")
Hi == RNum(Len(q[1]) - 1)
Xs == Even("0", Hi, Len(q[1]))
LookOk == k = "look" => LET f == Clamp(Fv, "0", Hi)  n == Len(q[1])
        Opts == {j \in 1..n : StepColour(C3, Xs, f, C3[j], "0")} IN
    /\ Opts # {}
    /\ (f = "0" => \A j \in Opts : C3[j] = C3[1]) /\ (f = Hi => \A j \in Opts : C3[j] = C3[n])
    /\ \E v \in {<<Blend(C3[PieceOf(Xs, f)][1], C3[PieceOf(Xs, f) + 1][1], Theta(Xs, f, PieceOf(Xs, f)))>>} :
         LinearColour(C3, Xs, f, <<RFloor(RAdd(v[1], "1/2")), RNeg(RFloor(RNeg(RSub(RSub("255", v[1]), "1/2")))), "9">>, "0")
Emit == k = "look" => PrintT("GEN " \o ToJson([c |-> q[1], f |-> q[2]]))
=============================================================================
