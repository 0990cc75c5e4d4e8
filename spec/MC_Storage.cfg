SPECIFICATION Spec
INVARIANTS Keeps Sound Emit
CHECK_DEADLOCK FALSE
