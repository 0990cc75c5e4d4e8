SPECIFICATION Spec
CONSTANTS Dm = 3 Steps = 3 MaxLev = 4
INVARIANTS AdjExact Tiles GradedInv Emit
PROPERTIES SameAsGSplit
CHECK_DEADLOCK FALSE
