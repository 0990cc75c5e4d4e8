-------------------------------- MODULE Aabb ---------------------------------
(* Binary bounding-volume trees and their traversal.  CH is the sequence of   *)
(* child pairs, nodes are numbered from 0, leaves have <<-1, -1>>.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Leaf(CH, q) == CH[q + 1][2] = -1
KidsOf(CH, q) == IF Leaf(CH, q) THEN {} ELSE {CH[q + 1][1], CH[q + 1][2]}
\* nodes that a traversal with the set `allow` of accepted nodes must visit
RECURSIVE Reach(_, _, _)
Reach(CH, allow, q) == {q} \cup IF q \in allow THEN UNION {Reach(CH, allow, k) : k \in KidsOf(CH, q)} ELSE {}
\* queue disciplines: how the children of q enter the queue
Enqueue(disc, qu, CH, q) ==
    CASE disc = "fifo" -> qu \o CH[q + 1]
      [] disc = "lifo" -> CH[q + 1] \o qu
      [] disc = "lifo-swap" -> <<CH[q + 1][2], CH[q + 1][1]>> \o qu
      [] disc = "mixed" -> <<CH[q + 1][2]>> \o qu \o <<CH[q + 1][1]>>
Discs == {"fifo", "lifo", "lifo-swap", "mixed"}
\* one visit
StepQ(disc, qu, CH, allow) == LET q == Head(qu) IN IF q \in allow /\ ~Leaf(CH, q) THEN Enqueue(disc, Tail(qu), CH, q) ELSE Tail(qu)
\* the full visiting order
RECURSIVE Order(_, _, _, _)
Order(disc, qu, CH, allow) == IF qu = <<>> THEN <<>> ELSE <<Head(qu)>> \o Order(disc, StepQ(disc, qu, CH, allow), CH, allow)
\* well-formed tree: every node but 0 has exactly one parent, all are below 0
TreeOk(CH) == LET n == Len(CH) IN
    /\ \A q \in 0..(n-1) : CH[q + 1] = <<-1, -1>> \/ (CH[q + 1][1] # CH[q + 1][2] /\ CH[q + 1][1] \in 1..(n-1) /\ CH[q + 1][2] \in 1..(n-1))
    /\ LET Par(q) == {p \in 0..(n-1) : q \in KidsOf(CH, p)} IN \A q \in 1..(n-1) : Cardinality(Par(q)) = 1
    /\ Reach(CH, 0..(n-1), 0) = 0..(n-1)
=============================================================================
