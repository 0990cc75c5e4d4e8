--------------------------- MODULE Tr_Matryoshka ----------------------------
(* P41: recorded results of matryoshka.                                       *)
EXTENDS Matryoshka, Outcome
VARIABLES h, l, st, bad
Eps == "1/1000000000"
Unit(x) == RNear(RDot(x, x), "1", Eps, "0")
Along(x, y) == LET c == RCross(x, y) IN RLe(RDot(c, c), RMul("1/1000000000000000000", RMul(RDot(x, x), RDot(y, y)))) /\ RLt("0", RDot(x, y))
Horizontal == <<"0", "0", "1">>
OrElse(x, y) == IF x = << >> THEN y ELSE x     \* x: absent or given
NestJ(i, o) ==
    LET A == i.V  W == i.W  P == Planes(A, i.F)
        g == [p |-> o.p, n |-> o.n, up |-> o.up, dn |-> o.dn]
        cut == OrElse(i.n, Horizontal)
        wantup == OrElse(i.up, cut)
        wantdn == OrElse(i.dn, RVScale("-1", cut))
        fixed == i.mode # "all" \/ RSgn(o.s) = 0
        at(s) == Copy(W, o.b, s, o.R, o.c)
    IN Failing({<<"result: pivot is not the mean of the vertices of B", RVNear(o.b, Mean(W), "1/1000000000000", Eps)>>,
                <<"result: not a rotation", Rotation(o.R, Eps)>>,
                <<"result: directions are not unit", Unit(o.n) /\ Unit(o.up) /\ Unit(o.dn)>>,
                <<"result: directions and cut", RLe("-1/1000000000", RDot(o.up, o.n)) /\ RLe(RDot(o.dn, o.n), Eps)>>,
                <<"result: scale", RLe("0", o.s) /\ RLe(o.s, "1")>>,
                <<"fixed cut plane", fixed => RVNear(o.p, OrElse(i.p, Mean(A)), "1/1000000000000", Eps) /\ Along(o.n, cut)>>,
                <<"fixed removal directions", fixed => Along(o.up, wantup) /\ Along(o.dn, wantdn)>>,
                <<"fixed pose", i.mode = "scale_only" => (IF i.R = << >> THEN o.R = <<<<"1","0","0">>, <<"0","1","0">>, <<"0","0","1">>>> ELSE o.R = i.R)
                                                      /\ RVNear(o.c, OrElse(i.c, Mean(A)), "1/1000000000000", Eps)>>,
                <<"an argument was modified", o.same>>})
       \cup (IF i.convex
             THEN Failing({<<"the copy does not fit", RSgn(o.s) # 0 => FitsLoose(P, at(o.s), g)>>,
                           <<"the scale is not the largest", (RLt(o.s, "1") /\ RSgn(o.s) # 0) => LET t == RAdd(RAdd(o.s, i.tol), Eps) IN RLt(t, "1") => ~FitsSure(P, at(t), g)>>,
                           <<"the full size fits", (RLt(RAdd(RAdd(o.s, i.tol), Eps), "1") /\ RSgn(o.s) # 0) => ~FitsSure(P, at("1"), g)>>,
                           <<"a small copy fits", (RSgn(o.s) = 0 /\ i.mode = "scale_only") => ~FitsSure(P, at("1/1000"), g)>>})
             ELSE Failing({<<"the copy does not fit", RSgn(o.s) # 0 => FitsBody(A, i.F, at(o.s), g)>>}))
AgainJ(i, o) == Failing({<<"the same seed gave another result", o.eq>>})
MoreJ(i, o) == Failing({<<i.what, RLe(RSub(i.s, i.slack), o.s)>>})
Jdg(s, e) == V(s, IF e.exc # "" THEN {"raised"} ELSE CASE e.op = "nest" -> NestJ(e.in, e.out) [] e.op = "again" -> AgainJ(e.in, e.out) [] e.op = "more" -> MoreJ(e.in, e.out))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
