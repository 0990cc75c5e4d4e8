SPECIFICATION Spec
CONSTANTS Mode = "point" Walk = 3
INVARIANTS Optimal InHull Emit
CHECK_DEADLOCK FALSE
