SPECIFICATION Spec
CONSTANT Pick = 9
INVARIANTS Solved OnSphere Emit
CHECK_DEADLOCK FALSE
