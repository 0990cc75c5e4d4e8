SPECIFICATION Spec
CONSTANTS Mode = "hist" MaxLen = 5
INVARIANTS HistHolds HistEmit
CHECK_DEADLOCK FALSE
