SPECIFICATION Spec
CONSTANTS R = 4
INVARIANTS InsideOne Odd3 Axes Adds
CHECK_DEADLOCK FALSE
