SPECIFICATION Spec
CONSTANTS Steps = 8 Pick = 17
INVARIANTS OneThreshold Bracket Largest SameBody Emit
CHECK_DEADLOCK FALSE
