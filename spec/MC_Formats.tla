----------------------------- MODULE MC_Formats -----------------------------
(* Every small mesh with every choice of parts, written as PLY; then the file *)
(* is edited as other programs would have written it: foreign properties and  *)
(* elements, other order, other names and number types.  It still reads back  *)
(* as the mesh.  As an STL soup, merging recovers a mesh with its facets.     *)
EXTENDS Formats, Json
CONSTANTS MaxEdits
VARIABLES m, f, edits
V3 == << <<1, -1, 2>>, <<0, 4, 3>>, <<5, 0, 6>> >>
Clr(n) == [i \in 1..n |-> <<10 * i, 10 * i + 1, 255 - i, i>>]
Fs == { NoRows, << <<0, 1, 2>> >>, << <<2, 1, 0>>, <<0, 1, 2>> >>, << <<0, 1, 2>>, <<1, 2, 0>>, <<2, 1, 0>> >> }
Init == /\ \E F \in Fs : \E N \in {NoRows, [i \in 1..3 |-> <<i, 0, 7 - i>>]} : \E nc \in {0, 3, Len(F)} : m = [V |-> V3, F |-> F, N |-> N, C |-> Clr(nc)]
        /\ f = PlyOf(m) /\ edits = 0
Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Swap(s, i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
Edit(g) == f' = g /\ edits' = edits + 1 /\ UNCHANGED m
AddProp == \E e \in 1..Len(f) : \E p \in 0..Len(f[e].props) : \E l \in BOOLEAN :
    Edit([f EXCEPT ![e].props = Ins(@, p, IF l THEN ListProp("tags", "short") ELSE Prop("quality", "float")),
                   ![e].rows = [r \in 1..Len(@) |-> Ins(@[r], p, IF l THEN <<4, 5>> ELSE 9)]])
AddEl == \E p \in 0..Len(f) : Edit(Ins(f, p, El("edge", <<Prop("vertex1", "int"), Prop("x", "float"), Prop("vertex_indices", "uchar")>>, << <<1, 2, 3>>, <<4, 5, 6>> >>)))
SwapEl == \E p \in 1..(Len(f) - 1) : Edit(Swap(f, p))
Group(n) == IF \E k \in 1..3 : XYZ[k] = n THEN "x" ELSE IF \E k \in 1..3 : NXYZ[k] = n THEN "n" ELSE IF \E k \in 1..4 : RGBA[k] = n \/ RGBA1[k] = n THEN "c" ELSE n
SwapProp == \E e \in 1..Len(f) : \E p \in 1..(Len(f[e].props) - 1) :
    /\ Group(f[e].props[p].name) # Group(f[e].props[p+1].name)
    /\ Edit([f EXCEPT ![e].props = Swap(@, p), ![e].rows = [r \in 1..Len(@) |-> Swap(@[r], p)]])
Ren(n) == CASE n = "vertex_indices" -> "vertex_index" [] n = "red" -> "r" [] n = "green" -> "g" [] n = "blue" -> "b" [] n = "alpha" -> "a" [] OTHER -> n
Rename == \E e \in 1..Len(f) : f[e].name # "edge" /\ Edit([f EXCEPT ![e].props = [k \in 1..Len(@) |-> [@[k] EXCEPT !.name = Ren(@)]]])
Retype == \E e \in 1..Len(f) : \E t \in {"float", "int", "ushort", "uchar", "char"} :
    Edit([f EXCEPT ![e].props = [k \in 1..Len(@) |-> IF (IF t = "float" THEN @[k].ty = "double" ELSE @[k].list) THEN [@[k] EXCEPT !.ty = t] ELSE @[k]]])
Next == edits < MaxEdits /\ (AddProp \/ AddEl \/ SwapEl \/ SwapProp \/ Rename \/ Retype)
Spec == Init /\ [][Next]_<<m, f, edits>>
RoundTrip == Decode(f) = PlyKeeps(m)
\* STL: the soup, and its merging
Soup == LET fs == Facets(m.V, m.F)  v == [k \in 1..(3 * Len(fs)) |-> fs[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]
            g == [i \in 1..Len(fs) |-> <<3 * (i - 1), 3 * (i - 1) + 1, 3 * (i - 1) + 2>>]
        IN Loose(v, g) /\ Facets(v, g) = fs /\ (Len(fs) = 1 => Merged(fs, v, g)) /\ (Len(fs) > 1 => ~Merged(fs, v, g))
SoupMerges == m.F # NoRows => Soup /\ Merged(Facets(m.V, m.F), m.V, m.F)
Emit == edits = MaxEdits => PrintT("GEN " \o ToJson(f))
=============================================================================
