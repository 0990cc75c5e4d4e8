SPECIFICATION Spec
CONSTANTS Steps = 5
INVARIANTS Halving Smallest Tight Emit
CHECK_DEADLOCK FALSE
