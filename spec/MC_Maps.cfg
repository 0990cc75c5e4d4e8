SPECIFICATION Spec
CONSTANTS N = 5
 K = 3
 Emit = TRUE
INVARIANTS SamePlace OneEach Idempotent Complete Emitted
CHECK_DEADLOCK FALSE
