SPECIFICATION Spec
CONSTANTS Calls = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
