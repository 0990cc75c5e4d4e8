SPECIFICATION Spec
CONSTANTS N = 24
INVARIANTS NeverZero Proportional
CHECK_DEADLOCK FALSE
