SPECIFICATION Spec
CONSTANTS NX = 2 NY = 2 NZ = 2
INVARIANTS Positive Fills Match
CHECK_DEADLOCK FALSE
