------------------------------ MODULE MC_Chain ------------------------------
(* Three samples with every choice of densities, every candidate sequence and *)
(* every draw of a lattice: the chain never leaves the support, the verdicts  *)
(* for implementations contain the exact rule, and (for every symmetric       *)
(* candidate distribution) the target distribution is stationary.             *)
EXTENDS Chain, Sequences, Json
CONSTANTS Steps
VARIABLES w, cur, q
W == {"0", "1", "2", "3"}
U == {"0", "1/4", "1/2", "3/4", "9007199254740991/9007199254740992"}
Init == w \in {x \in [1..3 -> W] : x[1] # "0"} /\ cur = 1 /\ q = << >>
Next == /\ Len(q) < Steps
        /\ \E y \in 1..3, u \in U : q' = Append(q, [y |-> y, u |-> u]) /\ cur' = (IF Accepts(u, w[cur], w[y]) THEN y ELSE cur)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, cur, q>>
Support == w[cur] # "0"
Sound == \A y \in 1..3, u \in U : IF Accepts(u, w[cur], w[y]) THEN MayAccept(u, w[cur], w[y]) ELSE MayReject(u, w[cur], w[y])
Sharp == \A y \in 1..3, u \in U : (MayAccept(u, w[cur], w[y]) /\ MayReject(u, w[cur], w[y])) => (REq(RMul(u, w[cur]), w[y]) \/ (u \notin {"0", "1/4", "1/2", "3/4"}))
\* stationarity: sum_x w[x] P(x, y) = w[y] with P(x, y) = g(x, y) Rate(x, y), y # x, and the rest staying
G == { <<a, b, c>> : a, b, c \in {"0", "1/4", "1/2"} }       \* g(1,2), g(1,3), g(2,3), symmetric
Gt(g, x, y) == IF {x, y} = {1, 2} THEN g[1] ELSE IF {x, y} = {1, 3} THEN g[2] ELSE g[3]
Flow(g, x, y) == IF w[x] = "0" THEN "0" ELSE RMul(w[x], RMul(Gt(g, x, y), Rate(w[x], w[y])))
Stationary == q = << >> => \A g \in G : \A x, y \in 1..3 : x # y => Flow(g, x, y) = Flow(g, y, x)
Emit == Len(q) = Steps => PrintT("GEN " \o ToJson([w |-> w, q |-> q]))
=============================================================================
