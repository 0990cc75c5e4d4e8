---------------------------- MODULE TraceEngine -----------------------------
(* Trace validation.  The trace file holds one history per line, recorded     *)
(* from the real code:                                                        *)
(*    [id |-> "...", ev |-> << [op |-> "...", exc |-> "", in |-> .., out |-> ..], .. >>]  *)
(* Judge(st, ev) is the subsystem specification's transition relation made    *)
(* total: it returns the set of clauses of the specification that event ev    *)
(* violates in abstract state st (empty = the event is an allowed step), the  *)
(* successor state, and whether the rest of the history is still meaningful.  *)
(* A history is accepted iff its last event is reached with nothing violated. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Histories, Judge(_, _), Start(_)
VARIABLES h, l, st, bad
vars == <<h, l, st, bad>>

Init == /\ h \in 1..Len(Histories)
        /\ l = 0
        /\ st = Start(Histories[h])
        /\ bad = {}

Report(n, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", h, n, b>>)
Done(n) == IF n = Len(Histories[h].ev) THEN PrintT(<<"DONE", h, n>>) ELSE TRUE

Consume ==
    /\ l < Len(Histories[h].ev)
    /\ LET e == Histories[h].ev[l + 1]
           j == IF e.exc # "" /\ ~("mayraise" \in DOMAIN e)
                THEN [bad |-> {"raised " \o e.exc}, st |-> st, stop |-> FALSE]
                ELSE Judge(st, e)
       IN /\ bad' = j.bad
          /\ st' = j.st
          /\ l' = IF j.stop THEN Len(Histories[h].ev) ELSE l + 1
          /\ Report(l + 1, j.bad)
          /\ Done(l')
          /\ UNCHANGED h

Next == Consume
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
