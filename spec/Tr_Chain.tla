------------------------------ MODULE Tr_Chain ------------------------------
(* P26: recorded Metropolis chains, one event per candidate.                  *)
EXTENDS Chain, Outcome
VARIABLES h, l, st, bad
StartJ(s, e) ==
    LET o == e.out  i == e.in  ok == o.t = "seq" /\ Len(o.a) = 2 /\ IsArr(o.a[1], "f", <<i.n, i.d>>) /\ IsArr(o.a[2], "f", <<i.n>>) IN
    [st |-> [x |-> i.x, f |-> i.f, k |-> 1, n |-> i.n, S |-> IF ok THEN o.a[1].a ELSE << >>, F |-> IF ok THEN o.a[2].a ELSE << >>], stop |-> ~ok,
     bad |-> IF ~ok THEN {"metropolis_hastings: shape of the results"}
             ELSE Failing({<<"metropolis_hastings: the first sample is not the given one", o.a[1].a[1] = i.x>>,
                           <<"metropolis_hastings: density reported for the first sample", o.a[2].a[1] = i.f>>,
                           <<"metropolis_hastings: number of candidates", i.cands = i.n - 1>>,
                           <<"metropolis_hastings: random draws per candidate", i.draws = i.cands>>,
                           <<"metropolis_hastings: argument modified", i.same>>})]
CandJ(s, e) ==
    LET i == e.in  row == s.S[s.k + 1]  d == s.F[s.k + 1]
        acc == row = i.to /\ MayAccept(i.u, s.f, i.f)
        rej == row = s.x /\ MayReject(i.u, s.f, i.f)
        nf == IF acc THEN i.f ELSE IF rej THEN s.f ELSE "?" IN
    [st |-> [s EXCEPT !.x = row, !.k = @ + 1, !.f = IF nf = "?" THEN d ELSE nf], stop |-> ~acc /\ ~rej,
     bad |-> Failing({<<"metropolis_hastings: candidate not drawn from the current sample", i.from = s.x>>,
                      <<"metropolis_hastings: acceptance rule", acc \/ rej>>,
                      <<"metropolis_hastings: density reported for a sample", (acc \/ rej) => d = nf>>})]
AgainJ(s, e) == V(s, Failing({<<"metropolis_hastings: equal generators, different chains", e.in.equal>>}))
Jdg(s, e) == CASE e.op = "run" -> StartJ(s, e) [] e.op = "cand" -> CandJ(s, e) [] e.op = "again" -> AgainJ(s, e)
S0(hist) == << >>
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
