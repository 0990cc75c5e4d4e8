SPECIFICATION Spec
CONSTANTS Mode = "edge" Walk = 2
INVARIANTS Optimal InHull Emit
CHECK_DEADLOCK FALSE
