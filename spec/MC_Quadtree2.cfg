SPECIFICATION Spec
CONSTANTS Dm = 2 Steps = 4 MaxLev = 4
INVARIANTS AdjExact Tiles GradedInv Emit
PROPERTIES SameAsGSplit
CHECK_DEADLOCK FALSE
