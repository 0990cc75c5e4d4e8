------------------------------ MODULE MC_Arcs -------------------------------
(* P44: samples of the distance to a small set of lattice points come in one  *)
(* by one, and points are put on the spheres, unless they are inside another. *)
(* The true surface is inside no sphere, so a point on it is always allowed   *)
(* and never has to be given up again.                                        *)
EXTENDS Arcs, Json
CONSTANTS Size, Most, Pick
VARIABLES Q, U, cloud
vars == <<Q, U, cloud>>
Pts == (0..Size) \X (0..Size)
E2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
R2(u) == CHOOSE d \in {E2(u, q) : q \in Q} : \A q \in Q : d <= E2(u, q)
Free(p, W) == \A v \in W : R2(v) <= E2(p, v)
None == <<-1, -1>>
Init == Q \in {S \in SUBSET Pts : Cardinality(S) \in 1..2} /\ U = << >> /\ cloud = << >>
All(u) == {u[i] : i \in 1..Len(u)}
Sample == /\ Len(U) < Most
          /\ \E p \in Pts : /\ p \notin All(U)
                            /\ Len(U) > 0 => p[1] * (Size + 1) + p[2] > U[Len(U)][1] * (Size + 1) + U[Len(U)][2]
                            /\ U' = Append(U, p)
                            /\ cloud' = [i \in 1..Len(U') |-> IF i = Len(U') THEN None ELSE IF cloud[i] # None /\ Free(cloud[i], {p}) THEN cloud[i] ELSE None]
          /\ UNCHANGED Q
Place == /\ \E i \in 1..Len(U) : /\ cloud[i] = None
                                 /\ \E p \in Pts : /\ E2(p, U[i]) = R2(U[i]) /\ Free(p, All(U))
                                                   /\ cloud' = [cloud EXCEPT ![i] = p]
         /\ UNCHANGED <<Q, U>>
Next == Sample \/ Place
Spec == Init /\ [][Next]_vars
Good == \A i \in 1..Len(U) : cloud[i] # None => E2(cloud[i], U[i]) = R2(U[i]) /\ Free(cloud[i], All(U))
Possible == \A i \in 1..Len(U) : \E q \in Q : E2(q, U[i]) = R2(U[i]) /\ Free(q, All(U))
Steady == [][\A i \in 1..Len(U) : cloud[i] \in Q => cloud'[i] = cloud[i]]_vars
\* the judgement agrees with the lattice, and tells a point one step off
Code == LET f[i \in 0..Len(U)] == IF i = 0 THEN Cardinality(Q) ELSE (f[i-1] * 31 + U[i][1] * 7 + U[i][2]) % 10007 IN f[Len(U)]
Str(p) == <<ToString(p[1]), ToString(p[2])>>
Agree == (Len(U) = Most /\ Code % 5 = 0 /\ \E i \in 1..Len(U) : cloud[i] # None) =>
    LET V == [i \in 1..Len(U) |-> Str(U[i])]  R == [i \in 1..Len(U) |-> RSqrt(ToString(R2(U[i])), 60)]  C == Cores(R, "1/1000000000000")
    IN \A i \in 1..Len(U) : cloud[i] # None =>
         /\ OnSphere(Str(cloud[i]), V[i], R[i], "1/1000000000") /\ Outside(Str(cloud[i]), V, C, (1..Len(U)) \ {i})
         /\ \A q \in Pts : E2(q, cloud[i]) = 1 =>
              /\ OnSphere(Str(q), V[i], R[i], "1/1000000000") <=> E2(q, U[i]) = R2(U[i])
              /\ Outside(Str(q), V, C, (1..Len(U)) \ {i}) <=> Free(q, All(U) \ {U[i]})
Emit == (Len(U) = Most /\ (\A i \in 1..Len(U) : cloud[i] = None) /\ Code % Pick = 0) => PrintT("GEN " \o ToJson([Q |-> Q, U |-> U]))
=============================================================================
