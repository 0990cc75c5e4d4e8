------------------------------- MODULE MC_Png -------------------------------
(* All small gray pictures: crossings are even in every cell and on the rim,  *)
(* so contours can be traced without loose ends, and the judge accepts such a *)
(* tracing and nothing that lost or moved a vertex.                           *)
EXTENDS PngPoly, Json
CONSTANTS W, H, Shades, Pick
VARIABLES img
SetTop == CHOOSE s \in Shades : \A t \in Shades : t <= s
Init == img = << >>
Pixels == [1..(W * H) -> Shades]
Next == img = << >> /\ img' \in {p \in Pixels : (\E i \in 1..(W * H) : p[i] = SetTop) /\ TRUE}
Spec == Init /\ [][Next]_img
Pic == [px |-> [r \in 1..H |-> [c \in 1..W |-> <<img[(r - 1) * W + c]>>]], top |-> 255]
G == Field(Pic)
Cells == (0..(W - 2)) \X (0..(H - 2))
Even == img # << >> =>
    LET g == TLCEval(G)  X == TLCEval(Crossed(g, Level(g))) IN
    /\ \A c \in Cells : Cardinality({e \in X : c \in CellsOf(g, e)}) \in {0, 2, 4}
    /\ Cardinality({e \in X : Border(g, e)}) % 2 = 0
Hash == LET f[i \in 0..Len(img)] == IF i = 0 THEN 7 ELSE (f[i-1] * 31 + img[i]) % 10007 IN f[Len(img)]
Some == img # << >> /\ Hash % Pick = 0
Judged == Some =>
    LET P == Contours(Pic) IN
    /\ WrongContours(Pic, P) = {}
    /\ (P # << >> => /\ WrongContours(Pic, Tail(P)) # {}
                     /\ WrongContours(Pic, [P EXCEPT ![1] = Tail(@)]) # {}
                     /\ WrongContours(Pic, [P EXCEPT ![1][1] = <<RAdd(@[1], "1/100"), @[2]>>]) # {})
Emit == Some => PrintT("GEN " \o ToJson([px |-> Pic.px]))
=============================================================================
