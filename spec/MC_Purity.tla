----------------------------- MODULE MC_Purity ------------------------------
(* Libraries that offer two functions f, g, each implemented in one of the    *)
(* ways below, driven by every history of calls and caller writes:            *)
(*   pure      computes from contents into fresh memory                       *)
(*   mutates   f also overwrites its argument                                 *)
(*   aliases   f answers with its argument's own memory when that is `easy`   *)
(*   table     f answers with memory the library keeps and answers from       *)
(*   buffer    f answers with memory it uses again in its next call           *)
(*   counts    f depends on how often it was called                           *)
(*   crosstalk f depends on whether g was called                              *)
(*   identity  f remembers its answer by the argument's identity              *)
(*   keeps     f's answer is a view that g later overwrites                   *)
(* Memory is a sequence of cells; names point to cells; the caller sees       *)
(* contents only.  The monitor of Purity.tla must never complain about pure,  *)
(* and the histories it needs to expose the others are emitted: the driver    *)
(* puts each real function through them.                                      *)
EXTENDS Purity, Json
CONSTANTS MaxLen
VARIABLES impl, mem, ptr, lib, store, memo, q, alarm
vars == <<impl, mem, ptr, lib, store, memo, q, alarm>>
Impls == {"pure", "mutates", "aliases", "table", "buffer", "counts", "crosstalk", "identity", "keeps"}
F(fn, v) == <<fn, v>>          \* the contents of an answer
\* cells 1 and 2 hold the arguments a and b; a's content is 0, b's is 1, a write toggles between them
Init ==
    /\ impl \in Impls
    /\ mem = << <<"c", 0>>, <<"c", 1>> >>
    /\ ptr = << >>                                    \* results in the order received: cells
    /\ lib = [n |-> 0, g |-> FALSE, tab |-> 0, id |-> << >>]
    /\ store = {<<"a", <<"c", 0>> >>, <<"b", <<"c", 1>> >>}
    /\ memo = {}
    /\ q = << >>
    /\ alarm = {}
RName(i) == <<"r1", "r2", "r3", "r4", "r5">>[i]
Look(m, p) == {<<"a", m[1]>>, <<"b", m[2]>>} \union {<<RName(i), m[p[i]]>> : i \in DOMAIN p}
\* an execution of fn on cell c: new memory, cell of the answer, new library state
Known(ids, c) == \E i \in DOMAIN ids : ids[i][1] = c
Recall(ids, c) == ids[CHOOSE i \in DOMAIN ids : ids[i][1] = c][2]
Exec(fn, c) ==
    LET v == mem[c]
        fresh(w, l) == [mem |-> Append(mem, w), cell |-> Len(mem) + 1, lib |-> l]
        l1 == [lib EXCEPT !.n = @ + 1] IN
    IF fn = "g" THEN
        IF impl = "keeps" /\ lib.tab # 0
        THEN [mem |-> Append([mem EXCEPT ![lib.tab] = F("g", v)], F("g", v)), cell |-> Len(mem) + 1, lib |-> lib]
        ELSE fresh(F("g", v), [lib EXCEPT !.g = TRUE])
    ELSE CASE impl = "pure" -> fresh(F("f", v), lib)
           [] impl = "mutates" -> [mem |-> Append([mem EXCEPT ![c] = <<"m", v>>], F("f", v)), cell |-> Len(mem) + 1, lib |-> lib]
           [] impl = "aliases" -> IF v[1] = "c" THEN [mem |-> mem, cell |-> c, lib |-> lib] ELSE fresh(F("f", v), lib)
           [] impl = "table" -> IF v # <<"c", 0>> THEN fresh(F("f", v), lib)
                                ELSE IF lib.tab = 0 THEN fresh(F("f", v), [lib EXCEPT !.tab = Len(mem) + 1])
                                ELSE [mem |-> mem, cell |-> lib.tab, lib |-> lib]
           [] impl = "buffer" -> IF lib.tab = 0 THEN fresh(F("f", v), [lib EXCEPT !.tab = Len(mem) + 1])
                                 ELSE [mem |-> [mem EXCEPT ![lib.tab] = F("f", v)], cell |-> lib.tab, lib |-> lib]
           [] impl = "counts" -> fresh(<<"f", v, lib.n>>, l1)
           [] impl = "crosstalk" -> fresh(<<"f", v, lib.g>>, lib)
           [] impl = "identity" -> IF Known(lib.id, c) THEN fresh(Recall(lib.id, c), lib)
                                   ELSE fresh(F("f", v), [lib EXCEPT !.id = Append(@, <<c, F("f", v)>>)])
           [] impl = "keeps" -> fresh(F("f", v), [lib EXCEPT !.tab = Len(mem) + 1])
Call(fn, nm, c) ==
    /\ Len(ptr) < 5
    /\ \E x \in {Exec(fn, c)} :
         LET p == Append(ptr, x.cell)  after == Look(x.mem, p)  key == <<fn, mem[c]>>  res == x.mem[x.cell] IN
         /\ mem' = x.mem /\ lib' = x.lib /\ ptr' = p
         /\ alarm' = Broken(CallClauses(store, memo, after, RName(Len(p)), {nm}, key, res))
         /\ store' = after
         /\ memo' = memo \union {<<key, res>>}
         /\ q' = Append(q, [do |-> fn, on |-> nm])
Put(m, nm, c, w) ==
    /\ mem' = [mem EXCEPT ![c] = w]
    /\ \E after \in {Look(mem', ptr)} :
         /\ alarm' = Broken(WriteClauses(store, after, nm, {RName(i) : i \in DOMAIN ptr} \ {nm}))
         /\ store' = after
    /\ q' = Append(q, [do |-> "write", on |-> nm])
    /\ UNCHANGED <<ptr, lib, memo>>
Next ==
    /\ Len(q) < MaxLen /\ alarm = {}
    /\ UNCHANGED impl
    /\ \/ \E fn \in {"f", "g"} : Call(fn, "a", 1) \/ Call(fn, "b", 2)
       \/ Put(mem, "a", 1, IF mem[1] = <<"c", 0>> THEN <<"c", 1>> ELSE <<"c", 0>>)
       \/ Len(ptr) > 0 /\ Put(mem, RName(Len(ptr)), ptr[Len(ptr)], <<"w", Len(q)>>)
Spec == Init /\ [][Next]_vars
Sound == impl = "pure" => alarm = {}
Emit == alarm # {} => PrintT("GEN " \o ToJson([impl |-> impl, q |-> q]))
=============================================================================
