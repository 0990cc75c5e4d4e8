SPECIFICATION Spec
CONSTANTS Errs = {1, 3, 6} Res0 = 2 H0 = 5 K1 = 2 K2 = 4 Bound = 100
INVARIANT Sane
PROPERTIES OnlyHalves Counts Stops1
CHECK_DEADLOCK FALSE
