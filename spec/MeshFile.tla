------------------------------ MODULE MeshFile ------------------------------
(* OBJ mesh files as sequences of records (one per line)                      *)
(*   [k |-> "v"/"vt"/"vn", x |-> <<numbers>>]                                 *)
(*   [k |-> "f", c |-> << <<v, t, n>>, .. >>]   1-based, 0 = not given        *)
(*   [k |-> "other"]                            comment, blank, other directive *)
(* the writer, and the reader as an automaton over the records.               *)
EXTENDS Integers, Sequences, TLC
None == << >>      \* a missing part: no rows
Rec(k, x) == [k |-> k, x |-> x]
Face(c) == [k |-> "f", c |-> c]
Noise == [k |-> "other"]
IsNone(x) == x = None
\* ---- writer: mesh = [V, F, UV, Ft, N, Fn]; missing parts are None; texture (normal) faces default to F
\*      when there are as many texture coordinates (normals) as vertices
FtOf(m) == IF IsNone(m.UV) \/ ~IsNone(m.Ft) THEN m.Ft ELSE IF Len(m.UV) = Len(m.V) THEN m.F ELSE None
FnOf(m) == IF IsNone(m.N) \/ ~IsNone(m.Fn) THEN m.Fn ELSE IF Len(m.N) = Len(m.V) THEN m.F ELSE None
Rows(k, M) == IF IsNone(M) THEN << >> ELSE [i \in 1..Len(M) |-> Rec(k, M[i])]
Written(m) ==
    LET ft == FtOf(m)  fn == FnOf(m) IN
    Rows("v", m.V) \o Rows("vt", m.UV) \o Rows("vn", m.N)
    \o [i \in 1..Len(m.F) |-> Face([j \in 1..Len(m.F[i]) |-> <<m.F[i][j] + 1, IF IsNone(ft) THEN 0 ELSE ft[i][j] + 1, IF IsNone(fn) THEN 0 ELSE fn[i][j] + 1>>])]
\* ---- reader
Start0 == [V |-> << >>, F |-> << >>, UV |-> << >>, Ft |-> << >>, N |-> << >>, Fn |-> << >>]
Line(s, r) ==
    CASE r.k = "v" -> [s EXCEPT !.V = Append(@, r.x)]
      [] r.k = "vt" -> [s EXCEPT !.UV = Append(@, r.x)]
      [] r.k = "vn" -> [s EXCEPT !.N = Append(@, r.x)]
      [] r.k = "f" -> [s EXCEPT !.F = Append(@, [j \in 1..Len(r.c) |-> r.c[j][1] - 1]),
                                !.Ft = Append(@, [j \in 1..Len(r.c) |-> r.c[j][2] - 1]),
                                !.Fn = Append(@, [j \in 1..Len(r.c) |-> r.c[j][3] - 1])]
      [] r.k = "other" -> s
Read(lines) == LET f[i \in 0..Len(lines)] == IF i = 0 THEN Start0 ELSE TLCEval(Line(f[i-1], lines[i])) IN f[Len(lines)]
\* what a written mesh reads back as: parts without faces get "no index"
Blank(F) == [i \in 1..Len(F) |-> [j \in 1..Len(F[i]) |-> -1]]
Rd(M) == IF IsNone(M) THEN << >> ELSE M
Expected(m) == [V |-> m.V, F |-> m.F, UV |-> Rd(m.UV), N |-> Rd(m.N),
                Ft |-> IF IsNone(FtOf(m)) THEN Blank(m.F) ELSE FtOf(m), Fn |-> IF IsNone(FnOf(m)) THEN Blank(m.F) ELSE FnOf(m)]
=============================================================================
