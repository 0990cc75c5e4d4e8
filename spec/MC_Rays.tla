------------------------------- MODULE MC_Rays ------------------------------
(* All small lattice rays against all small boxes, triangles and segments.    *)
EXTENDS Rays, Json
CONSTANTS Mode, Emitting
VARIABLES c, done
S(i) == RNum(i)
\* walk: components are chosen one after the other
Dims == IF Mode = "box3" THEN 3 ELSE 2
Need == CASE Mode = "box2" -> 8 [] Mode = "box3" -> 12 [] Mode = "tri" -> 4 [] Mode = "seg" -> 8
BoxDom(i) == LET k == (i - 1) % 4 IN CASE k = 0 -> {-1, 0, 1, 2, 4} [] k = 1 -> (-1)..2 [] k = 2 -> {0} [] k = 3 -> (IF Dims = 3 THEN {0, 2} ELSE {0, 2, 3})
Dirs3 == { <<x, y, z>> : x \in (-1)..1, y \in (-1)..1, z \in {-2, 0, 1} } \ {<<0, 0, 0>>}
Tris == { <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>>>, <<<<0, 0, 1>>, <<1, 2, 0>>, <<-1, 1, 2>>>>, <<<<1, 1, 1>>, <<0, 2, 1>>, <<1, 0, 0>>>>, <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>> }
Dom(i) == CASE Mode \in {"box2", "box3"} -> BoxDom(i)
            [] Mode = "tri" -> (CASE i = 1 -> Tris [] i = 2 -> Dirs3 [] i = 3 -> {<<x, y>> : x \in (-1)..3, y \in (-1)..3} [] i = 4 -> {-1, 0, 1, 2})
            [] Mode = "seg" -> (-1)..1
Init == c = <<>> /\ done = FALSE
Pick == ~done /\ Len(c) < Need /\ (\E x \in Dom(Len(c) + 1) : c' = Append(c, x)) /\ done' = (Len(c') = Need)
Spec == Init /\ [][Pick]_<<c, done>>
\* boxes: c = per axis o, d, lo, hi
O == [i \in 1..Dims |-> S(c[4*i - 3])]   D == [i \in 1..Dims |-> S(c[4*i - 2])]
Lo == [i \in 1..Dims |-> S(c[4*i - 1])]  Hi == [i \in 1..Dims |-> S(c[4*i])]
NonZero == \E i \in 1..Dims : RSgn(D[i]) # 0
IsBox == done /\ Mode \in {"box2", "box3"} /\ NonZero
BoxAgree == IsBox => BoxEntry(O, D, Lo, Hi) = BoxCand(O, D, Lo, Hi)
BoxPoint == IsBox => LET t == BoxEntry(O, D, Lo, Hi) IN t # "none" => RLe("0", t) /\ InBox(Along(O, D, t), Lo, Hi)
\* no half-lattice point of the half-line before the entry, or on a missing half-line, is in the box
Ts == {RDiv(S(i), "4") : i \in 0..20}
BoxFirst == IsBox => LET e == BoxEntry(O, D, Lo, Hi) IN \A t \in Ts : InBox(Along(O, D, t), Lo, Hi) => e # "none" /\ RLe(e, t)
\* what lies inside the box is not entered before the box: pruning by the entry is safe
BoxNest == IsBox => LET e == BoxEntry(O, D, Lo, Hi)  f == BoxEntry(O, D, [i \in 1..Dims |-> RMin(RAdd(Lo[i], IF i = 1 THEN "1" ELSE "0"), Hi[i])], Hi) IN f # "none" => e # "none" /\ RLe(e, f)
\* triangles: c = triangle, direction, <<2u, 2v>>, 2t
V3(p) == [i \in 1..3 |-> S(p[i])]
IsTri == done /\ Mode = "tri"
TA == V3(c[1][1])  TB == V3(c[1][2])  TC == V3(c[1][3])  TD == V3(c[2])
TU == RDiv(S(c[3][1]), "2")  TV == RDiv(S(c[3][2]), "2")  TT == RDiv(S(c[4]), "2")
TO == RVSub(RVAdd(TA, RVAdd(RVScale(TU, RVSub(TB, TA)), RVScale(TV, RVSub(TC, TA)))), RVScale(TT, TD))
TriUnique == IsTri => LET s == TriSolve(TO, TD, TA, TB, TC) IN s # <<>> => REq(s[1], TT) /\ REq(s[2], TU) /\ REq(s[3], TV)
TriPar == IsTri => ((TriSolve(TO, TD, TA, TB, TC) = <<>>) <=> RSgn(RDot(TD, RCross(RVSub(TB, TA), RVSub(TC, TA)))) = 0)
\* segments
SO == <<S(c[1]), S(c[2])>>  SD == <<S(c[3]), S(c[4])>>  SA == <<S(c[5]), S(c[6])>>  SB == <<S(c[7]), S(c[8])>>
IsSeg == done /\ Mode = "seg" /\ SD # <<"0", "0">> /\ SA # SB
SegOk == IsSeg => LET s == SegSolve(SO, SD, SA, SB) IN
    IF s # <<>> THEN RVNear(Along(SO, SD, s[1]), Along(SA, RVSub(SB, SA), s[2]), "0", "0")
    ELSE Coinc(SO, SD, SA, SB) => RVNear(Along(SO, SD, ParamOf(SO, SD, SA)), SA, "0", "0") /\ RVNear(Along(SO, SD, ParamOf(SO, SD, SB)), SB, "0", "0")
Emit == Emitting => ((IsBox => PrintT("GEN " \o ToJson(<<O, D, Lo, Hi>>))) /\ (IsTri => PrintT("GEN " \o ToJson(<<TO, TD, <<TA, TB, TC>>>>))))
=============================================================================
