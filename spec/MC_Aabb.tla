------------------------------- MODULE MC_Aabb -------------------------------
(* Every binary tree with at most MaxLeaves leaves, every predicate, every    *)
(* queue discipline: each promised node is visited exactly once.              *)
(* Second machine (Best): nearest-element search with lower bounds.  Any      *)
(* search order with pruning returns a true minimum.                          *)
EXTENDS Aabb, Json
CONSTANTS MaxLeaves, MaxVal, Find
VARIABLES CH, allow, disc, queue, seen, phase, val, best, arg
vv == <<CH, allow, disc, queue, seen, phase, val, best, arg>>
Init == CH = <<<<-1, -1>>>> /\ allow = {} /\ disc = "fifo" /\ queue = <<>> /\ seen = <<>> /\ phase = "grow" /\ val = <<>> /\ best = MaxVal + 1 /\ arg = -1
NLeaves == Cardinality({q \in 0..(Len(CH) - 1) : Leaf(CH, q)})
\* leaves are divided in increasing order, so that each shape is built once
Grow == /\ phase = "grow" /\ NLeaves < MaxLeaves
        /\ \E q \in 0..(Len(CH) - 1) :
              /\ Leaf(CH, q)
              /\ \A p \in 0..(Len(CH) - 1) : ~Leaf(CH, p) => p < q
              /\ CH' = Append(Append([CH EXCEPT ![q + 1] = <<Len(CH), Len(CH) + 1>>], <<-1, -1>>), <<-1, -1>>)
        /\ UNCHANGED <<allow, disc, queue, seen, phase, val, best, arg>>
Start == /\ phase = "grow" /\ phase' = "walk" /\ queue' = <<0>> /\ UNCHANGED <<CH, seen, best, arg>>
         /\ IF Find THEN val' \in [1..Len(CH) -> 0..MaxVal] /\ allow' = {} /\ disc' = "any"
                         /\ \A q \in 0..(Len(CH) - 1) : \A k \in KidsOf(CH, q) : val'[q + 1] <= val'[k + 1]   \* lower bounds
            ELSE val' = <<>> /\ allow' \in SUBSET (0..(Len(CH) - 1)) /\ disc' \in Discs
Visit == /\ phase = "walk" /\ queue # <<>> /\ seen' = Append(seen, Head(queue))
         /\ UNCHANGED <<CH, allow, disc, phase, val>>
         /\ IF ~Find THEN queue' = StepQ(disc, queue, CH, allow) /\ UNCHANGED <<best, arg>>
            ELSE LET q == Head(queue)  v == val[q + 1] IN
                 IF v >= best THEN queue' = Tail(queue) /\ UNCHANGED <<best, arg>>
                 ELSE IF Leaf(CH, q) THEN best' = v /\ arg' = q /\ queue' = Tail(queue)
                 ELSE UNCHANGED <<best, arg>> /\ \E d \in Discs : queue' = Enqueue(d, Tail(queue), CH, q)
Spec == Init /\ [][Grow \/ Start \/ Visit]_vv
Ids(s) == {s[i] : i \in 1..Len(s)}
Tree == TreeOk(CH)
Once == Cardinality(Ids(seen) \cup Ids(queue)) = Len(seen) + Len(queue)
Done == phase = "walk" /\ queue = <<>>
Complete == ~Find /\ Done => /\ Ids(seen) = Reach(CH, allow, 0) /\ seen = Order(disc, <<0>>, CH, allow) /\ seen[1] = 0
LeafVals == {val[q + 1] : q \in {q \in 0..(Len(CH) - 1) : Leaf(CH, q)}}
Minimum == Find /\ Done => /\ best \in LeafVals /\ (\A v \in LeafVals : best <= v) /\ Leaf(CH, arg) /\ val[arg + 1] = best
Emit == (~Find /\ Done /\ disc = "fifo") => PrintT("GEN " \o ToJson([ch |-> CH, allow |-> allow]))
=============================================================================
