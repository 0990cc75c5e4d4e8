------------------------------ MODULE Formats -------------------------------
(* PLY and STL mesh files (OBJ files are in MeshFile).                        *)
(* PLY: a sequence of elements, each a name, properties [name, ty, list] and  *)
(* rows of values (a list property holds a sequence).  A reader finds the     *)
(* properties it knows by name; elements and properties it does not know, and *)
(* the order of the groups, do not matter.                                    *)
(* STL: a sequence of facets, three points each.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoRows == << >>
El(name, props, rows) == [name |-> name, props |-> props, rows |-> rows]
Prop(name, ty) == [name |-> name, ty |-> ty, list |-> FALSE]
ListProp(name, ty) == [name |-> name, ty |-> ty, list |-> TRUE]
XYZ == <<"x", "y", "z">>
NXYZ == <<"nx", "ny", "nz">>
RGBA == <<"red", "green", "blue", "alpha">>
RGBA1 == <<"r", "g", "b", "a">>
Real == {"float", "double"}
Ints == {"char", "uchar", "short", "ushort", "int", "uint"}
\* ---- PLY: writer; mesh = [V, F, N, C], missing parts have no rows
VertexColors(m) == m.C # NoRows /\ Len(m.C) = Len(m.V)
FaceColors(m) == m.C # NoRows /\ Len(m.C) = Len(m.F)
Part(c, x) == IF c THEN x ELSE << >>
Props(names, ty) == [k \in 1..Len(names) |-> Prop(names[k], ty)]
PlyOf(m) ==
    LET vc == VertexColors(m)  fc == FaceColors(m)  n == m.N # NoRows
        vp == Props(XYZ, "double") \o Part(n, Props(NXYZ, "double")) \o Part(vc, Props(RGBA, "uchar"))
        vr == [i \in 1..Len(m.V) |-> m.V[i] \o Part(n, IF n THEN m.N[i] ELSE << >>) \o Part(vc, IF vc THEN m.C[i] ELSE << >>)]
        fp == Part(fc, Props(RGBA, "uchar")) \o <<ListProp("vertex_indices", "uint")>>
        fr == [i \in 1..Len(m.F) |-> Part(fc, IF fc THEN m.C[i] ELSE << >>) \o <<m.F[i]>>]
    IN <<El("vertex", vp, vr)>> \o Part(m.F # NoRows, <<El("face", fp, fr)>>)
\* ---- PLY: reader
ElIx(f, name) == IF \E i \in 1..Len(f) : f[i].name = name THEN CHOOSE i \in 1..Len(f) : f[i].name = name /\ \A j \in 1..(i-1) : f[j].name # name ELSE 0
PrIx(e, name) == IF \E i \in 1..Len(e.props) : e.props[i].name = name THEN CHOOSE i \in 1..Len(e.props) : e.props[i].name = name /\ \A j \in 1..(i-1) : e.props[j].name # name ELSE 0
Has(f, el, names, types) ==
    LET i == ElIx(f, el) IN
    IF i = 0 THEN FALSE
    ELSE /\ \A k \in 1..Len(names) : PrIx(f[i], names[k]) # 0
         /\ \E t \in types : \A k \in 1..Len(names) : f[i].props[PrIx(f[i], names[k])].ty = t
Get(f, el, names) ==
    LET e == f[ElIx(f, el)]  ix == [k \in 1..Len(names) |-> PrIx(e, names[k])]
    IN TLCEval([r \in 1..Len(e.rows) |-> [k \in 1..Len(names) |-> e.rows[r][ix[k]]]])
One(M) == [r \in 1..Len(M) |-> M[r][1]]
Colors(f, el) == IF Has(f, el, RGBA, {"uchar"}) THEN Get(f, el, RGBA) ELSE IF Has(f, el, RGBA1, {"uchar"}) THEN Get(f, el, RGBA1) ELSE NoRows
Decode(f) ==
    LET vc == Colors(f, "vertex") IN
    [V |-> Get(f, "vertex", XYZ),
     F |-> IF Has(f, "face", <<"vertex_indices">>, Ints) THEN One(Get(f, "face", <<"vertex_indices">>))
           ELSE IF Has(f, "face", <<"vertex_index">>, Ints) THEN One(Get(f, "face", <<"vertex_index">>)) ELSE NoRows,
     N |-> IF Has(f, "vertex", NXYZ, Real) THEN Get(f, "vertex", NXYZ) ELSE NoRows,
     C |-> IF vc # NoRows THEN vc ELSE Colors(f, "face")]
\* what a PLY file keeps of a mesh
PlyKeeps(m) == [V |-> m.V, F |-> m.F, N |-> m.N, C |-> m.C]
\* ---- STL
Facets(V, F) == TLCEval([i \in 1..Len(F) |-> [j \in 1..3 |-> V[F[i][j] + 1]]])
Loose(V, F) == Len(V) = 3 * Len(F) /\ \A i \in 1..Len(F) : F[i] = <<3 * (i - 1), 3 * (i - 1) + 1, 3 * (i - 1) + 2>>
Distinct(V) == Cardinality({V[i] : i \in 1..Len(V)}) = Len(V)
AllUsed(V, F) == {i - 1 : i \in 1..Len(V)} = UNION {{F[i][j] : j \in 1..3} : i \in 1..Len(F)}
Valid(V, F) == \A i \in 1..Len(F) : Len(F[i]) = 3 /\ \A j \in 1..3 : F[i][j] \in 0..(Len(V) - 1)
\* a merged soup: the same facets over a list of points without repetition
Merged(fs, V, F) == Valid(V, F) /\ Distinct(V) /\ AllUsed(V, F) /\ Facets(V, F) = fs
=============================================================================
