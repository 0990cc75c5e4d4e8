----------------------------- MODULE Tr_Storage -----------------------------
(* P36: recorded calls with arguments kept in different storages.  The state   *)
(* is the answer given for the plainly kept contents of the history.          *)
EXTENDS Storage, Outcome, BigRat
VARIABLES h, l, st, bad
Tag(what, cl) == {what \o ": " \o c : c \in Failing(cl)}
SameSp(stored, content) ==
    LET at(i, j) == SelectSeq(stored, LAMBDA t : t[1] = i /\ t[2] = j)
        sum(i, j) == RSum([k \in 1..Len(at(i, j)) |-> at(i, j)[k][3]])
        places == {<<content[k][1], content[k][2]>> : k \in DOMAIN content} IN
    /\ \A k \in DOMAIN content : REq(sum(content[k][1], content[k][2]), content[k][3])
    /\ \A k \in DOMAIN stored : <<stored[k][1], stored[k][2]>> \in places \/ REq(sum(stored[k][1], stored[k][2]), "0")
CallJ(s, e) ==
    LET i == e.in IN
    [st |-> IF s = -1 THEN i.res ELSE s, stop |-> FALSE,
     bad |-> Tag(i.what \o ", arguments stored as " \o i.stored,
                 {<<"the answer depends on how the arguments are stored", s = -1 \/ i.res = s>>,
                  <<"an argument changed", i.before = i.after>>,
                  <<"no answer", i.raised = "">>})]
Jdg(s, e) == CASE e.op = "keep" -> [st |-> s, stop |-> FALSE, bad |-> Tag("harness: " \o e.in.what, {<<"the storage holds other contents", Content(e.in.view) = e.in.content>>})]
               [] e.op = "keepsp" -> [st |-> s, stop |-> FALSE, bad |-> Tag("harness: " \o e.in.what, {<<"the storage holds other contents", SameSp(e.in.stored, e.in.content)>>})]
               [] e.op = "call" -> CallJ(s, e)
S0(hist) == -1
INSTANCE TraceEngine WITH Histories <- TraceLines, Judge <- Jdg, Start <- S0
=============================================================================
