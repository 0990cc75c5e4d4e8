------------------------------ MODULE Tr_Deform -----------------------------
(* P29: recorded deformations, curves, rotations and normalisations.          *)
EXTENDS Deform, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000000000"
MaxAbs(M) == MMaxAbs(M)
SkinJ(e) == LET i == e.in  o == e.out IN
    IF ~IsArr(o, "f", <<Len(i.V), 3>>) THEN {"linear_blend_skinning: shape"}
    ELSE LET U == Skin(i.V, i.W, i.R, i.T)  tol == RMul(Tol, i.scale) IN Failing({
        <<"linear_blend_skinning: a vertex is not the blend of its handles", MNear(o.a, U, tol)>>, <<"linear_blend_skinning: argument modified", i.same>>})
CurveJ(e) == LET i == e.in  o == e.out IN
    IF ~IsArr(o, "f", <<Len(i.T), Len(i.P[1])>>) THEN {"catmull_rom_spline: shape"}
    ELSE LET s == RMul("16", RMul(RAdd("1", MMaxAbs(i.P)), RNum(Len(i.P)))) IN Failing({
        <<"catmull_rom_spline: point on the curve", \A k \in 1..Len(i.T) : RVNear(o.a[k], Curve(i.P, i.T[k]), RMul("1/1000000000000000", s), "0")>>,
        <<"catmull_rom_spline: argument modified", i.same>>})
RotJ(e) == LET i == e.in  o == e.out  n == Len(i.a) IN
    IF ~IsArr(o, "f", <<n, n>>) THEN {"rotation_matrix_from_vectors: shape"}
    ELSE Failing({<<"rotation_matrix_from_vectors: not a rotation", Rotation(o.a, i.tol)>>,
                  <<"rotation_matrix_from_vectors: direction not taken to the other", Takes(o.a, i.a, i.b, i.tol)>>,
                  <<"rotation_matrix_from_vectors: argument modified", i.same>>})
NormJ(e) == LET i == e.in  o == e.out IN
    IF ~IsArr(o, "f", <<Len(i.V), Len(i.V[1])>>) THEN {"normalize_points: shape"}
    ELSE Failing({<<"normalize_points: not the tight uniform map into the unit cube", MNear(o.a, Normal(i.V, i.c), RMul("1/100000000000000", RAdd("1", RAdd(RMaxAbs(i.c), RDiv(MMaxAbs(i.V), Extent(i.V))))))>>,
                  <<"normalize_points: argument modified", i.same>>})
Jdg(s, e) == V(s, CASE e.op = "skin" -> SkinJ(e) [] e.op = "curve" -> CurveJ(e) [] e.op = "rot" -> RotJ(e) [] e.op = "norm" -> NormJ(e))
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
