SPECIFICATION Spec
CONSTANTS Mode = "box2" Emitting = TRUE
INVARIANTS BoxAgree BoxPoint BoxFirst BoxNest TriUnique TriPar SegOk Emit
CHECK_DEADLOCK FALSE
