SPECIFICATION Spec
CONSTANTS MaxLeaves = 4 MaxVal = 0 Find = FALSE
INVARIANTS Tree Once Complete Emit
CHECK_DEADLOCK FALSE
