SPECIFICATION Spec
CONSTANTS Steps = 2
INVARIANTS Support Sound Sharp Stationary Emit
CHECK_DEADLOCK FALSE
