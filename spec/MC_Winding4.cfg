SPECIFICATION Spec
CONSTANTS N = 4 M = 2
INVARIANTS Agree Angles Parity Flip SimpleOne OutsideZero Emit
CHECK_DEADLOCK FALSE
