SPECIFICATION Spec
CONSTANTS MaxEdits = 2
INVARIANTS RoundTrip SoupMerges Emit
CHECK_DEADLOCK FALSE
