----------------------------- MODULE Tr_Formats -----------------------------
(* P38: recorded histories of a directory of mesh files, written and read by  *)
(* the compiled engines.  The state maps each path to what its file holds.    *)
EXTENDS Formats, MeshFile, BigRat, Outcome
VARIABLES h, l, st, bad
Has2(s, p) == p \in DOMAIN s
Put(s, p, fmt, c) == (p :> [fmt |-> fmt, c |-> c]) @@ s
\* ---- OBJ
ObjMesh(i) == [V |-> i.V, F |-> i.F, UV |-> i.UV, Ft |-> i.Ft, N |-> i.N, Fn |-> i.Fn]
ObjWrite(e) ==
    LET m == ObjMesh(e.in)  got == Read(e.out)  want == Expected(m) IN
    Failing({<<"write_mesh obj: vertices in the file", got.V = want.V>>, <<"write_mesh obj: faces in the file", got.F = want.F>>,
             <<"write_mesh obj: texture coordinates in the file", got.UV = want.UV>>, <<"write_mesh obj: texture faces in the file", got.Ft = want.Ft>>,
             <<"write_mesh obj: normals in the file", got.N = want.N>>, <<"write_mesh obj: normal faces in the file", got.Fn = want.Fn>>})
ObjRead(c, i, o) ==
    LET R == Read(c) IN
    Failing({<<"read_mesh obj: number of results", o.n = 2 + (IF i.uv THEN 2 ELSE 0) + (IF i.nn THEN 2 ELSE 0)>>,
             <<"read_mesh obj: vertices", o.V = R.V>>, <<"read_mesh obj: faces", o.F = R.F>>,
             <<"read_mesh obj: texture coordinates", i.uv => o.UV = R.UV>>, <<"read_mesh obj: texture faces", i.uv => o.Ft = R.Ft>>,
             <<"read_mesh obj: normals", i.nn => o.N = R.N>>, <<"read_mesh obj: normal faces", i.nn => o.Fn = R.Fn>>})
\* ---- PLY
PlyWrite(e) ==
    LET got == Decode(e.out)  m == e.in IN
    IF ElIx(e.out, "vertex") = 0 THEN {"write_mesh ply: no vertices in the file"} ELSE
    Failing({<<"write_mesh ply: vertices in the file", got.V = m.V>>, <<"write_mesh ply: faces in the file", got.F = m.F>>,
             <<"write_mesh ply: normals in the file", got.N = m.N>>, <<"write_mesh ply: colors in the file", got.C = m.C>>,
             <<"write_mesh ply: vertex colors in the file", VertexColors(m) => Colors(e.out, "vertex") = m.C>>,
             <<"write_mesh ply: face colors in the file", (~VertexColors(m) /\ FaceColors(m)) => Colors(e.out, "face") = m.C>>})
PlyRead(c, i, o) ==
    LET R == Decode(c) IN
    Failing({<<"read_mesh ply: number of results", o.n = 2 + (IF i.nn THEN 2 ELSE 0) + (IF i.cc THEN 1 ELSE 0)>>,
             <<"read_mesh ply: vertices", o.V = R.V>>, <<"read_mesh ply: faces", o.F = R.F>>,
             <<"read_mesh ply: normals", i.nn => o.N = R.N>>, <<"read_mesh ply: colors", i.cc => o.C = R.C>>})
\* ---- STL keeps single precision
Single(x, y) == RLe(RAbs(RSub(x, y)), RMul("1/16777216", RAbs(x)))
Singles(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : \A j, k \in 1..3 : Single(A[i][j][k], B[i][j][k])
StlWrite(e) == Failing({<<"write_mesh stl: facets in the file", Singles(Facets(e.in.V, e.in.F), e.out)>>})
StlRead(c, i, o) ==
    IF ~Valid(o.V, o.F) THEN {"read_mesh stl: a face does not index the vertices"} ELSE
    Failing({<<"read_mesh stl: number of results", o.n = 2>>,
             <<"read_mesh stl: facets", Facets(o.V, o.F) = c>>,
             <<"read_mesh stl: merged points repeat or are not used", i.merge => Merged(c, o.V, o.F)>>,
             <<"read_mesh stl: facets are not separate", i.merge \/ Loose(o.V, o.F)>>})
\* ---- events
WriteJ(s, e) ==
    LET w == CASE e.in.fmt = "obj" -> ObjWrite(e) [] e.in.fmt = "ply" -> PlyWrite(e) [] e.in.fmt = "stl" -> StlWrite(e) IN
    [st |-> Put(s, e.in.path, e.in.fmt, e.out), stop |-> w # {}, bad |-> w \cup (IF e.in.same THEN {} ELSE {"write_mesh: argument modified"})]
PutJ(s, e) == Ok(Put(s, e.in.path, e.in.fmt, e.in.c))
ReadJ(s, e) ==
    LET c == s[e.in.path].c  o == e.out IN
    V(s, (IF ~o.ok THEN {"read_mesh: array types"}
          ELSE CASE s[e.in.path].fmt = "obj" -> ObjRead(c, e.in, o) [] s[e.in.path].fmt = "ply" -> PlyRead(c, e.in, o) [] s[e.in.path].fmt = "stl" -> StlRead(c, e.in, o))
         \cup (IF e.in.same THEN {} ELSE {"read_mesh: the file was modified"}))
\* what cannot be done is reported, not ignored, and does not take the process down
RefuseJ(s, e) == V(s, Failing({<<e.in.what \o ": no exception", e.out.raised>>, <<e.in.what \o ": the process died", ~e.out.died>>}))
Jdg(s, e) == CASE e.op = "write" -> WriteJ(s, e) [] e.op = "put" -> PutJ(s, e) [] e.op = "read" -> ReadJ(s, e) [] e.op = "refuse" -> RefuseJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
