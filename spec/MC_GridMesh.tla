----------------------------- MODULE MC_GridMesh -----------------------------
(* Cells are divided one by one; every split fills its cell with positively   *)
(* oriented tets, and the conforming splits agree on every shared face.       *)
EXTENDS GridMesh, Json
CONSTANTS NX, NY, NZ
VARIABLES type, cells, tets
Cells == (0..NX-1) \X (0..NY-1) \X (0..NZ-1)
Init == type \in {"five", "reflectionally-symmetric", "rotationally-symmetric"} /\ cells = {} /\ tets = {}
Divide == \E c \in Cells \ cells : cells' = cells \cup {c} /\ tets' = tets \cup CellTets(c, type) /\ UNCHANGED type
Spec == Init /\ [][Divide]_<<type, cells, tets>>
RECURSIVE SumVol(_)
SumVol(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Vol6(t) + SumVol(S \ {t})
Positive == \A t \in tets : Vol6(t) > 0
Fills == SumVol(tets) = 6 * Cardinality(cells)
FaceOf(t, j) == {t[k] : k \in (1..4) \ {j}}
Faces(c) == UNION {{FaceOf(t, j) : j \in 1..4} : t \in CellTets(c, type)}
OnPlane(f, a, v) == \A p \in f : p[a] = v
UnitV(a) == [k \in 1..3 |-> IF k = a THEN 1 ELSE 0]
Match == Conforming(type) => \A c \in cells : \A a \in 1..3 :
    LET d == Add(c, UnitV(a)) IN d \in cells =>
      {f \in Faces(c) : OnPlane(f, a, d[a])} = {f \in Faces(d) : OnPlane(f, a, d[a])}
=============================================================================
