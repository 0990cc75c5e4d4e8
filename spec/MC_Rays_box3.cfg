SPECIFICATION Spec
CONSTANTS Mode = "box3" Emitting = FALSE
INVARIANTS BoxAgree BoxPoint BoxFirst BoxNest TriUnique TriPar SegOk Emit
CHECK_DEADLOCK FALSE
