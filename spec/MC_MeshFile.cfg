SPECIFICATION Spec
CONSTANTS MaxNoise = 2
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
