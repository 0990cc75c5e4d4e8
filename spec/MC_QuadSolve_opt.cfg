SPECIFICATION Spec
CONSTANTS Mode = "opt" MaxLen = 0
INVARIANTS OptHolds
CHECK_DEADLOCK FALSE
