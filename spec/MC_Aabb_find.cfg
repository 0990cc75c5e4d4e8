SPECIFICATION Spec
CONSTANTS MaxLeaves = 4 MaxVal = 2 Find = TRUE
INVARIANTS Tree Once Minimum
CHECK_DEADLOCK FALSE
