---------------------------- MODULE MC_SpheresCtl ----------------------------
(* The control of Reach for the Spheres under every history of errors: the    *)
(* target length only halves and never passes its bound, resampling is        *)
(* limited, and the iteration stops by itself, without a limit on it.         *)
EXTENDS Spheres, TLC
CONSTANTS Errs, Res0, H0, K1, K2, Bound
VARIABLES c, done, was
vars == <<c, done, was>>
P == [tol |-> "1", mi |-> 100000, rs |-> Res0]
Init == /\ c = [its |-> 0, counter |-> 0, best |-> "inf", h |-> RNum(H0), minh |-> "1", rc |-> 0] /\ done = FALSE /\ was = "none"
Next == /\ ~done
        /\ \E e \in Errs, met \in BOOLEAN : \E q \in Control(c, RNum(e), met, P, K1, K2) :
             /\ c' = q.c /\ done' = q.done
             /\ was' = IF q.again THEN "again" ELSE IF q.early THEN "early" ELSE IF q.kept THEN "kept" ELSE "step"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sane == /\ RLe(c.minh, c.h) /\ c.counter \in 0..(K2 + 1) /\ c.rc \in 0..Res0 /\ c.its <= Bound
        /\ (was = "again" => c.counter = 0 /\ c.best = "inf") /\ (was = "kept" => c.counter = 0 /\ c.best = "inf")
        /\ (was = "early" => done /\ c.rc = Res0)
        /\ (c.best # "inf" => \E e \in Errs : REq(c.best, RNum(e)))
OnlyHalves == [][REq(c'.h, c.h) \/ REq(c'.h, RMax(RMul("1/2", c.h), c.minh))]_vars
Counts == [][c'.its = c.its + (IF was' = "early" THEN 0 ELSE 1)]_vars
Stops1 == <>done
=============================================================================
