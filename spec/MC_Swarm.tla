------------------------------ MODULE MC_Swarm ------------------------------
(* Two particles on the grid 0..2, every move the rule allows with random     *)
(* factors in {0, 1/2, 1} (rounded to the grid), every objective script: the  *)
(* bookkeeping of the swarm keeps the minimum over all evaluations, bests     *)
(* never get worse, and a leader always is a best own position.               *)
EXTENDS Swarm, Json, Sequences
CONSTANTS Iters, Ring
VARIABLES s, ev
C == [n |-> 3, d |-> 1, lb |-> <<"0">>, ub |-> <<"2">>, momentum |-> "1/2", phi |-> "1", ring |-> Ring, iters |-> Iters]
Vals == {"0", "1", "inf"}
Grid == {"0", "1", "2"}
Fun(x) == IF \E k \in 1..Len(ev) : ev[k].x = x THEN {ev[CHOOSE k \in 1..Len(ev) : ev[k].x = x].f} ELSE Vals
Init == s = Start0(C) /\ ev = << >>
Do(x, f) == s' = Step(s, x, f) /\ ev' = Append(ev, [x |-> x, f |-> f])
Next == /\ s.t < Budget(C)
        /\ \E g \in Grid : \E f \in Fun(<<g>>) :
              /\ (IF s.t < C.n THEN TRUE ELSE \E rp, rg \in {"0", "1/2", "1"} : Allowed(s, <<g>>, rp, rg, "1/4"))
              /\ Do(<<g>>, f)
Spec == Init /\ [][Next]_<<s, ev>>
Vals2 == {ev[k].f : k \in 1..Len(ev)}
BestIsMin == ev # << >> => /\ s.f \in Vals2 /\ \A f \in Vals2 : ~Less(f, s.f)
                           /\ s.arg = {ev[k].x : k \in {q \in 1..Len(ev) : ev[q].f = s.f}}
OwnBest == \A i \in 1..Len(s.pb) : LET mine == {k \in 1..Len(ev) : k = i \/ (k > C.n /\ ((k - 1) % C.n) + 1 = i)} IN
    /\ \A k \in mine : ~Less(ev[k].f, s.pf[i])
    /\ \E k \in mine : ev[k].x = s.pb[i] /\ ev[k].f = s.pf[i]
SomeLeader == Len(s.pb) = C.n => \A i \in 1..C.n : Leaders(s, i) # {} /\ (~Ring => \A k \in Leaders(s, i) : s.pf[k] = s.f)
Bounded == s.t <= Budget(C) /\ \A i \in 1..Len(s.x) : InBox(C, s.x[i])
NeverWorse == [][~Less(s.f, s'.f) \/ s.t = 0]_<<s, ev>>
=============================================================================
