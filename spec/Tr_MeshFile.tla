---------------------------- MODULE Tr_MeshFile -----------------------------
(* P24: recorded histories of a directory of mesh files.  The state maps each *)
(* path to the records its file holds; numbers are exact hexadecimal doubles. *)
EXTENDS MeshFile, Outcome
VARIABLES h, l, st, bad
Mesh(i) == [V |-> i.V, F |-> i.F, UV |-> i.UV, Ft |-> i.Ft, N |-> i.N, Fn |-> i.Fn]
WriteJ(s, e) ==
    LET m == Mesh(e.in)  got == Read(e.out)  want == Expected(m) IN
    [st |-> (e.in.path :> e.out) @@ s, stop |-> FALSE,
     bad |-> Failing({<<"write_mesh: vertices in the file", got.V = want.V>>, <<"write_mesh: faces in the file", got.F = want.F>>,
                      <<"write_mesh: texture coordinates in the file", got.UV = want.UV>>, <<"write_mesh: texture faces in the file", got.Ft = want.Ft>>,
                      <<"write_mesh: normals in the file", got.N = want.N>>, <<"write_mesh: normal faces in the file", got.Fn = want.Fn>>,
                      <<"write_mesh: argument modified", e.in.same>>})]
PutJ(s, e) == [st |-> (e.in.path :> e.in.lines) @@ s, stop |-> FALSE, bad |-> {}]
ReadJ(s, e) ==
    LET R == Read(s[e.in.path])  o == e.out IN
    V(s, Failing({<<"read_mesh: number of results", o.n = 2 + (IF e.in.uv THEN 2 ELSE 0) + (IF e.in.nn THEN 2 ELSE 0)>>,
                  <<"read_mesh: array types", o.ok>>,
                  <<"read_mesh: vertices", o.V = R.V>>, <<"read_mesh: faces", o.F = R.F>>,
                  <<"read_mesh: texture coordinates", e.in.uv => o.UV = R.UV>>, <<"read_mesh: texture faces", e.in.uv => o.Ft = R.Ft>>,
                  <<"read_mesh: normals", e.in.nn => o.N = R.N>>, <<"read_mesh: normal faces", e.in.nn => o.Fn = R.Fn>>,
                  <<"read_mesh: the file was modified", e.in.same>>}))
\* DMAT: the file lists the entries column by column
DmatJ(s, e) ==
    LET i == e.in  o == e.out IN
    V(s, Failing({<<"read_dmat: shape", o.sh = <<i.rows, i.cols>> >>,
                  <<"read_dmat: entry", o.sh = <<i.rows, i.cols>> => \A r \in 1..i.rows, c \in 1..i.cols : o.a[r][c] = i.vals[(c - 1) * i.rows + r]>>}))
Jdg(s, e) == CASE e.op = "write" -> WriteJ(s, e) [] e.op = "put" -> PutJ(s, e) [] e.op = "read" -> ReadJ(s, e) [] e.op = "dmat" -> DmatJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
