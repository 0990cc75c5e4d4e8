-------------------------------- MODULE Chain -------------------------------
(* The Metropolis chain: a candidate with density f1 replaces the current     *)
(* sample with density f0 > 0 iff the draw u is below f1/f0; either way the   *)
(* current sample is recorded.                                                *)
EXTENDS BigRat, FiniteSets, TLC
Accepts(u, f0, f1) == RLt(RMul(u, f0), f1)
\* what an implementation working in double precision may do (the quotient is rounded, ties are free)
Ulp == "1/1125899906842624"
MayAccept(u, f0, f1) == RSgn(f1) > 0 /\ RLe(RMul(u, f0), RMul(f1, RAdd("1", Ulp)))
MayReject(u, f0, f1) == RLe(RMul(f1, RSub("1", Ulp)), RMul(u, f0))
\* probability of accepting a candidate
Rate(f0, f1) == RMin("1", RDiv(f1, f0))
=============================================================================
