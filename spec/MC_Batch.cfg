SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
