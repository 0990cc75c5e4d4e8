SPECIFICATION Spec
CONSTANTS Mode = "tri" Walk = 2
INVARIANTS Optimal InHull Emit
CHECK_DEADLOCK FALSE
