SPECIFICATION Spec
CONSTANTS N = 5 M = 2
INVARIANTS Agree Parity Flip SimpleOne OutsideZero Emit
CHECK_DEADLOCK FALSE
