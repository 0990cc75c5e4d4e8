SPECIFICATION Spec
CONSTANTS Mode = "tri" Emitting = TRUE
INVARIANTS BoxAgree BoxPoint BoxFirst BoxNest TriUnique TriPar SegOk Emit
CHECK_DEADLOCK FALSE
