----------------------------- MODULE MC_MarchSq -----------------------------
(* Every sign pattern on a small grid; cells are treated one after the other; *)
(* where the pattern is a saddle either separation may be chosen, and the     *)
(* library's table is one of the choices.                                     *)
EXTENDS MarchSq, Json
CONSTANTS NX, NY, Free
VARIABLES pos, todo, segs
vv == <<pos, todo, segs>>
Order == [n \in 1..((NX-1)*(NY-1)) |-> <<(n - 1) \div (NY - 1), (n - 1) % (NY - 1)>>]
Init == pos \in SUBSET Nodes(NX, NY) /\ todo = 1 /\ segs = {}
Pairs == {<<s, t>> \in (0..3) \X (0..3) : s # t}
Cands(c) == IF Free THEN {S \in {T \in SUBSET {<<s, t>> \in Pairs : s \in Crossed(pos, c) /\ t \in Crossed(pos, c)} : 2 * Cardinality(T) = Cardinality(Crossed(pos, c))} : CellOk(pos, c, S)}
            ELSE {Table(Code(pos, c))}
Cell == /\ todo <= Len(Order)
        /\ LET c == Order[todo] IN \E S \in Cands(c) : segs' = segs \cup {<<SideE(c, x[1]), SideE(c, x[2])>> : x \in S}
        /\ todo' = todo + 1 /\ UNCHANGED pos
Spec == Init /\ [][Cell]_vv
Done == todo > Len(Order)
Progress == ~Done => Cands(Order[todo]) # {}
TableOk == ~Done => CellOk(pos, Order[todo], Table(Code(pos, Order[todo])))
Good == Done => /\ AllCellsOk(NX, NY, pos, segs) /\ ClosedInside(NX, NY, segs)
                /\ {x[1] : x \in segs} \cup {x[2] : x \in segs} = {e \in GEdges(NX, NY) : Straddle(pos, e)}
Emit == (todo = 1) => PrintT("GEN " \o ToJson([nx |-> NX, ny |-> NY, pos |-> pos]))
=============================================================================
