------------------------------- MODULE Purity -------------------------------
(* What a caller may rely on when calling a function again and again.         *)
(* The caller's store maps names (argument objects and results received) to   *)
(* contents; memo maps calls already made (function, contents of its          *)
(* arguments) to the content of the answer.                                   *)
(*   Call(f, args)  adds one new name, changes no other content, and answers  *)
(*                  as every earlier equal call did                           *)
(*   Write(n)       the caller overwrites n: no other content changes         *)
(* Contents are opaque tokens; only their equality matters.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* a store and a memo are sets of pairs
Names(store) == {p[1] : p \in store}
Val(store, n) == (CHOOSE p \in store : p[1] = n)[2]
Changed(before, after, n) == <<n, Val(before, n)>> \notin after
\* names whose contents differ although the step may not touch them
Touched(before, after, may) == {n \in Names(before) \ may : Changed(before, after, n)}
Answers(memo, key) == {m[2] : m \in {x \in memo : x[1] = key}}
Agrees(memo, key, res) == Answers(memo, key) \subseteq {res}

CallClauses(store, memo, after, new, args, key, res) ==
    {<<"a call changed one of its arguments", Touched(store, after, Names(store) \ args) = {}>>,
     <<"a call changed an object it was not given", Touched(store, after, args) = {}>>,
     <<"equal calls gave different results", Agrees(memo, key, res)>>,
     <<"names", new \notin Names(store)>>}
WriteClauses(store, after, n, results) ==
    {<<"writing to one of the caller's objects changed a result", Touched(store, after, {n}) \cap results = {}>>,
     <<"writing to a result changed one of the caller's objects", Touched(store, after, {n}) \subseteq results>>}
Broken(cl) == {c[1] : c \in {d \in cl : ~d[2]}}
=============================================================================
