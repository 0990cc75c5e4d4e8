----------------------------- MODULE MC_MeshFile ----------------------------
(* Every small mesh with every choice of optional parts, written into a file  *)
(* that held something else before, with foreign lines inserted anywhere,     *)
(* reads back as itself.                                                      *)
EXTENDS MeshFile, Json, FiniteSets
CONSTANTS MaxNoise
VARIABLES m, file, phase, noise
Vs == { [i \in 1..n |-> <<i, 0 - i, 2 * i>>] : n \in 3..4 }
Fs(n) == { << <<0, 1, 2>> >>, << <<2, 1, 0>>, <<n - 1, 0, 1>> >> }
Coords == { None, << <<5, 6>>, <<7, 8>>, <<9, 9>> >>, << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>> >> }
FCoords(F) == { None, [i \in 1..Len(F) |-> <<2, 0, 1>>] }
Init == /\ \E V \in Vs : \E F \in Fs(Len(V)) : \E UV \in Coords, N \in Coords : \E Ft \in FCoords(F), Fn \in FCoords(F) :
              /\ (IsNone(UV) => IsNone(Ft)) /\ (IsNone(N) => IsNone(Fn))
              /\ m = [V |-> V, F |-> F, UV |-> UV, Ft |-> Ft, N |-> N, Fn |-> Fn]
        /\ file = << Rec("v", <<0, 0, 0>>), Face(<< <<1, 1, 1>>, <<1, 1, 1>>, <<1, 1, 1>> >>) >>
        /\ phase = "old" /\ noise = << >>
Write == phase = "old" /\ file' = Written(m) /\ phase' = "written" /\ UNCHANGED <<m, noise>>
Insert(i) == SubSeq(file, 1, i) \o <<Noise>> \o SubSeq(file, i + 1, Len(file))
AddNoise == phase = "written" /\ Len(noise) < MaxNoise /\ (\E i \in 0..Len(file) : (IF noise = << >> THEN TRUE ELSE i >= noise[Len(noise)]) /\ file' = Insert(i) /\ noise' = Append(noise, i)) /\ UNCHANGED <<m, phase>>
Next == Write \/ AddNoise
Spec == Init /\ [][Next]_<<m, file, phase, noise>>
RoundTrip == phase = "written" => Read(file) = Expected(m)
Emit == (phase = "written" /\ Len(noise) = MaxNoise) => PrintT("GEN " \o ToJson([m |-> m, noise |-> noise]))
=============================================================================
