----------------------------- MODULE Tr_Purity ------------------------------
(* P27: recorded call histories.  The state holds the caller's store and the  *)
(* memo of answers, as in Purity.tla; every event carries the store found     *)
(* after it.                                                                  *)
EXTENDS Purity, Outcome
VARIABLES h, l, st, bad
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Tag(what, cl) == {what \o ": " \o c : c \in Broken(cl)}
CallJ(s, e) ==
    LET i == e.in  after == Pairs(i.store) IN
    [st |-> [s EXCEPT !.store = after, !.memo = @ \union {<<i.key, i.res>>}, !.res = @ \union {i.new}], stop |-> FALSE,
     bad |-> Tag(i.what, CallClauses(s.store, s.memo, after, i.new, Range(i.args), i.key, i.res))]
WriteJ(s, e) ==
    LET after == Pairs(e.in.store)  may == Range(e.in.may) IN
    [st |-> [s EXCEPT !.store = after], stop |-> FALSE,
     bad |-> Broken({<<"writing to the caller's objects changed a result", Touched(s.store, after, may) \cap s.res = {}>>,
                     <<"writing changed one of the caller's other objects", Touched(s.store, after, may) \subseteq s.res>>})]
Jdg(s, e) == CASE e.op = "start" -> Ok([s EXCEPT !.store = Pairs(e.in.store)])
               [] e.op = "fresh" -> Ok([s EXCEPT !.memo = @ \union {<<e.in.key, e.in.res>>}])
               [] e.op = "call" -> CallJ(s, e)
               [] e.op = "write" -> WriteJ(s, e)
S0(hist) == [store |-> {}, memo |-> {}, res |-> {}]
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
