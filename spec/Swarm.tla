-------------------------------- MODULE Swarm -------------------------------
(* Particle swarm optimisation as a transition system: one step = one         *)
(* evaluation of the objective, particles taking turns.  The first n steps    *)
(* place the particles; later ones move one particle by                       *)
(*    v' = momentum v + phi rp (own best - x) + phi rg (topology's best - x)  *)
(*    x' = x + v' clamped to the box, rp, rg in [0, 1].                       *)
(* Velocities are seen through the moves: a coordinate that ended strictly    *)
(* inside the box moved by its velocity, otherwise it is unknown ("?").       *)
EXTENDS BigRat, FiniteSets, TLC
\* objective values: rationals and infinities
Less(a, b) == IF a = b THEN FALSE ELSE IF a = "inf" \/ b = "-inf" THEN FALSE ELSE IF b = "inf" \/ a = "-inf" THEN TRUE ELSE RLt(a, b)
Start0(c) == [c |-> c, t |-> 0, x |-> << >>, v |-> << >>, pb |-> << >>, pf |-> << >>, f |-> "inf", arg |-> {}]
Turn(s) == IF s.t < s.c.n THEN s.t + 1 ELSE (s.t % s.c.n) + 1
InBox(c, x) == Len(x) = c.d /\ \A j \in 1..c.d : RLe(c.lb[j], x[j]) /\ RLe(x[j], c.ub[j])
\* the best value seen and the points attaining it
Best(s, x, f) == IF Less(f, s.f) \/ s.t = 0 THEN [s EXCEPT !.f = f, !.arg = {x}] ELSE IF f = s.f THEN [s EXCEPT !.arg = @ \cup {x}] ELSE s
Place(s, x, f) == [Best(s, x, f) EXCEPT !.t = @ + 1, !.x = Append(@, x), !.v = Append(@, [j \in 1..s.c.d |-> "?"]), !.pb = Append(@, x), !.pf = Append(@, f)]
Inside(c, x, j) == RLt(c.lb[j], x[j]) /\ RLt(x[j], c.ub[j])
Move(s, x, f) ==
    LET i == Turn(s)  b == Best(s, x, f)  better == Less(f, s.pf[i]) IN
    [b EXCEPT !.t = @ + 1,
              !.v[i] = TLCEval([j \in 1..s.c.d |-> IF Inside(s.c, x, j) THEN RSub(x[j], s.x[i][j]) ELSE "?"]),
              !.x[i] = x, !.pb[i] = IF better THEN x ELSE @, !.pf[i] = IF better THEN f ELSE @]
Step(s, x, f) == IF s.t < s.c.n THEN Place(s, x, f) ELSE Move(s, x, f)
\* ---- the movement rule
Wrap(i, n) == ((i - 1 + n) % n) + 1
Peers(s, i) == IF s.c.ring THEN {Wrap(i - 1, s.c.n), i, Wrap(i + 1, s.c.n)} ELSE 1..s.c.n
Leaders(s, i) == {k \in Peers(s, i) : \A q \in Peers(s, i) : ~Less(s.pf[q], s.pf[k])}
Pred(s, i, k, j, rp, rg) ==
    RAdd(s.x[i][j], RAdd(RMul(s.c.momentum, s.v[i][j]),
         RMul(s.c.phi, RAdd(RMul(rp, RSub(s.pb[i][j], s.x[i][j])), RMul(rg, RSub(s.pb[k][j], s.x[i][j]))))))
Obeys(s, x, rp, rg, k, tol) ==
    LET i == Turn(s) IN
    \A j \in 1..s.c.d : s.v[i][j] # "?" =>
        LET p == Pred(s, i, k, j, rp, rg)  e == RMul(tol, RSub(s.c.ub[j], s.c.lb[j])) IN
        /\ RLt(s.c.lb[j], x[j]) => RLe(RSub(x[j], p), e)        \* not above the prediction, unless held at the lower bound
        /\ RLt(x[j], s.c.ub[j]) => RLe(RSub(p, x[j]), e)
Allowed(s, x, rp, rg, tol) == IF s.t < s.c.n THEN TRUE ELSE (RLe("0", rp) /\ RLe(rp, "1") /\ RLe("0", rg) /\ RLe(rg, "1") /\ \E k \in Leaders(s, Turn(s)) : Obeys(s, x, rp, rg, k, tol))
Budget(c) == c.n * (c.iters + 1)
=============================================================================
