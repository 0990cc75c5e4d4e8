---------------------------- MODULE MC_QuadSolve ----------------------------
(* (Mode "opt") The stationary point the specification names is the minimum:  *)
(* every small problem against every feasible lattice competitor.             *)
(* (Mode "hist") Solver objects and caller arrays: all short histories of     *)
(* making objects, overwriting the arrays they were made from, and solving;   *)
(* an answer belongs to the arrays as they were when the object was made.     *)
EXTENDS QuadSolve, Json
CONSTANTS Mode, MaxLen
VARIABLES s
S(i) == RNum(i)
\* ---- opt: components chosen one after the other
Qs == { <<<<2, 1>>, <<1, 2>>>>, <<<<2, -1>>, <<1, 1>>>>, <<<<1, 0>>, <<0, 3>>>>, <<<<4, 2>>, <<2, 1>>>>, <<<<0, 0>>, <<0, 1>>>> }
Doms == << Qs, {<<x, y>> : x \in (-1)..2, y \in (-1)..1}, {<< >>, <<1, 0>>, <<1, 1>>, <<2, -1>>}, {-1, 0, 2}, {<< >>, <<1>>, <<2>>}, {-1, 0, 1} >>
OptNext == Mode = "opt" /\ Len(s) < Len(Doms) /\ (\E x \in Doms[Len(s) + 1] : s' = Append(s, x))
OptDone == Mode = "opt" /\ Len(s) = Len(Doms)
q == [i \in 1..2 |-> [j \in 1..2 |-> S(s[1][i][j])]]
c == [i \in 1..2 |-> <<S(s[2][i])>>]
a == IF s[3] = << >> THEN << >> ELSE <<[j \in 1..2 |-> S(s[3][j])]>>
b == IF s[3] = << >> THEN << >> ELSE <<<<S(s[4])>>>>
k == s[5]
y == [i \in 1..Len(k) |-> <<S(s[6])>>]
Lattice == {<<S(i), S(j)>> : i \in (-3)..3, j \in (-3)..3}
Feasible(u) == (\A r \in 1..Len(a) : REq(RDot(a[r], u), b[r][1])) /\ (\A i \in 1..Len(k) : u[k[i]] = y[i][1])
OptHolds == OptDone =>
    LET sol == QuadSolution(q, a, k, c, b, y, 1) IN
    sol # << >> =>
      LET u == MCol(sol, 1)  cc == MCol(c, 1) IN
      /\ Feasible(u)
      /\ \A w \in Lattice : Feasible(w) => RLe(Objective(q, cc, u), Objective(q, cc, w))
\* ---- hist: s = [arr |-> version of the caller's arrays, obj |-> object -> version it was made with, log]
Objs == 1..2
HistInit == [arr |-> 0, obj |-> [o \in Objs |-> -1], log |-> << >>]
Step(op, arg) == [op |-> op, arg |-> arg]
Make(o) == s' = [s EXCEPT !.obj[o] = s.arr, !.log = Append(@, Step("make", o))]
Scribble == s' = [s EXCEPT !.arr = @ + 1, !.log = Append(@, Step("scribble", 0))]
Solve(o, r) == s.obj[o] >= 0 /\ s' = [s EXCEPT !.log = Append(@, Step("solve", <<o, r, s.obj[o]>>))]
HistNext == Mode = "hist" /\ Len(s.log) < MaxLen /\ ((\E o \in Objs : Make(o)) \/ Scribble \/ (\E o \in Objs, r \in 1..2 : Solve(o, r)))
\* a solve names the version current at the last make of that object before it
HistHolds == Mode = "hist" =>
    \A i \in 1..Len(s.log) : s.log[i].op = "solve" =>
        LET o == s.log[i].arg[1]
            m == CHOOSE j \in 1..(i-1) : s.log[j] = Step("make", o) /\ \A l \in (j+1)..(i-1) : s.log[l] # Step("make", o)
        IN s.log[i].arg[3] = Cardinality({j \in 1..(m-1) : s.log[j].op = "scribble"})
HistEmit == (Mode = "hist" /\ Len(s.log) = MaxLen /\ s.log[MaxLen].op = "solve") => PrintT("GEN " \o ToJson([i \in 1..MaxLen |-> <<s.log[i].op, s.log[i].arg>>]))
Init == s = IF Mode = "opt" THEN << >> ELSE HistInit
Next == OptNext \/ HistNext
Spec == Init /\ [][Next]_s
=============================================================================
