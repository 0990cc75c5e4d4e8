SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
