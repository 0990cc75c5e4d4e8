------------------------------- MODULE Tr_Png -------------------------------
(* P40: recorded contours of picture files.                                   *)
EXTENDS PngPoly, Outcome
VARIABLES h, l, st, bad
IsPoly(o) == o.t = "seq" /\ \A k \in 1..Len(o.a) : o.a[k].t = "arr" /\ o.a[k].k = "f" /\ Len(o.a[k].sh) = 2 /\ o.a[k].sh[2] = 2
PolyJ(i, o) == IF ~IsPoly(o) THEN {"png2poly: not a list of polylines"} ELSE {"png2poly: " \o x : x \in WrongContours(i, [k \in 1..Len(o.a) |-> o.a[k].a])}
Jdg(s, e) == V(s, CASE e.op = "png2poly" -> PolyJ(e.in, e.out)
                    [] e.op = "again" -> Failing({<<"png2poly: not reproducible", e.out.same>>, <<"png2poly: the file was modified", e.out.kept>>})
                    [] e.op = "missing" -> Failing({<<"png2poly: a missing file was read", e.out.raised>>}))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
