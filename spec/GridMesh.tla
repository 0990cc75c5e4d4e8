------------------------------ MODULE GridMesh -------------------------------
(* Division of a regular box grid into tetrahedra: corner offsets of the tets *)
(* of one cell, and integer geometry on grid coordinates.                     *)
EXTENDS MeshTopo
Corner(k) == CASE k = 1 -> <<0,0,0>> [] k = 2 -> <<1,0,0>> [] k = 3 -> <<0,1,0>> [] k = 4 -> <<1,1,0>>
               [] k = 5 -> <<0,0,1>> [] k = 6 -> <<1,0,1>> [] k = 7 -> <<0,1,1>> [] k = 8 -> <<1,1,1>>
Split(type) ==
    CASE type = "five" -> {<<5,3,2,1>>, <<3,2,8,5>>, <<3,4,8,2>>, <<3,8,7,5>>, <<2,6,8,5>>}
      [] type = "reflectionally-symmetric" -> {<<3,4,7,1>>, <<4,5,7,1>>, <<4,8,7,5>>, <<2,6,8,5>>, <<4,2,8,5>>, <<4,2,5,1>>}
      [] type = "rotationally-symmetric" -> {<<1,3,7,8>>, <<1,8,7,5>>, <<1,3,8,4>>, <<1,4,8,2>>, <<1,6,8,5>>, <<1,2,8,6>>}
Conforming(type) == type # "five"      \* the 5-tet split does not match across cells
\* the documented vertex numbering: z fastest, then x, then y
VIdx(p, nx, nz) == (p[2] * nx + p[1]) * nz + p[3]
Add(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
\* six times the signed volume of a tet of grid points
Vol6(t) == Det3(Sub3(t[2], t[1]), Sub3(t[3], t[1]), Sub3(t[4], t[1]))
CellTets(c, type) == {[k \in 1..4 |-> Add(c, Corner(s[k]))] : s \in Split(type)}
=============================================================================
