SPECIFICATION Spec
CONSTANTS Mode = "seg" Emitting = FALSE
INVARIANTS BoxAgree BoxPoint BoxFirst BoxNest TriUnique TriPar SegOk Emit
CHECK_DEADLOCK FALSE
