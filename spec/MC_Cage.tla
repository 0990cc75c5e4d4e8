------------------------------ MODULE MC_Cage -------------------------------
(* P43: the search for a cage under every sequence of answers, and against    *)
(* an outside world with a threshold.                                         *)
EXTENDS Wrap, Json
CONSTANTS Steps
VARIABLES ans, world          \* world: 0..2^Steps, offsets of world/2^Steps and more work; -1: any answers
vars == <<ans, world>>
Size == 2 ^ Steps
Top == ToString(Size)
F == Search(Top, ans)
Now == F[Len(ans)]
Try == Half(Now.lo, Now.hi)
Init == ans = << >> /\ world \in -1..(Size + 1)
Next == /\ Len(ans) < Steps
        /\ \E b \in BOOLEAN : /\ world >= 0 => b = RLt(Try, ToString(world))
                              /\ ans' = Append(ans, b)
        /\ UNCHANGED world
Spec == Init /\ [][Next]_vars
Halving == REq(RSub(Now.hi, Now.lo), ToString(2 ^ (Steps - Len(ans))))
\* what is returned is the smallest offset that was tried and works
Tried == {i \in 1..Len(ans) : ~ans[i]}
Smallest == /\ Now.found = (Tried # {})
            /\ Now.found => REq(Now.hi, F[CHOOSE i \in Tried : \A j \in Tried : j <= i].last)
            /\ Now.found => \A i \in Tried : RLe(Now.hi, F[i].last)
Tight == world >= 0 => /\ RLt(Now.lo, ToString(world)) \/ RSgn(Now.lo) = 0
                       /\ Now.found => RLe(ToString(world), Now.hi)
                       /\ (Len(ans) = Steps /\ Now.found /\ world >= 1) => RLt(RSub(Now.hi, "1"), ToString(world))
Emit == (world = -1 /\ Len(ans) = Steps) => PrintT("GEN " \o ToJson(ans))
=============================================================================
