------------------------------ MODULE Tr_Swarm ------------------------------
(* P25: recorded runs, one event per evaluation of the objective.             *)
EXTENDS Swarm, Outcome
VARIABLES h, l, st, bad
Tol == "1/1000000"
EvalJ(s, e) ==
    LET x == e.in.x  f == e.in.f IN
    [st |-> TLCEval(Step(s, x, f)), stop |-> FALSE,
     bad |-> Failing({<<"particle_swarm: a point outside the bounds was evaluated", InBox(s.c, x)>>,
                      <<"particle_swarm: more evaluations than the iterations allow", s.t < Budget(s.c)>>,
                      <<"particle_swarm: a move that momentum and the two pulls cannot explain", Allowed(s, x, e.in.rp, e.in.rg, Tol)>>})]
RetJ(s, e) ==
    LET o == e.out  ok == o.t = "seq" /\ Len(o.a) = 2 /\ IsArr(o.a[1], "f", <<s.c.d>>) /\ o.a[2].t = "num" IN
    V(s, IF ~ok THEN {"particle_swarm: a point and a value are returned"}
         ELSE Failing({<<"particle_swarm: the value is not the minimum over the evaluations", o.a[2].v = s.f>>,
                       <<"particle_swarm: the point was not evaluated at that minimum", o.a[1].a \in s.arg>>,
                       <<"particle_swarm: fewer evaluations than the iterations ask for", s.t >= s.c.n>>,
                       <<"particle_swarm: argument modified", e.in.same>>}))
\* a second run from an equally seeded generator
AgainJ(s, e) == V(s, Failing({<<"particle_swarm: equal generators, different runs", e.in.equal>>}))
Jdg(s, e) == CASE e.op = "eval" -> EvalJ(s, e) [] e.op = "ret" -> RetJ(s, e) [] e.op = "again" -> AgainJ(s, e)
S0(hist) == Start0(hist.ev[1].in.cfg)
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
