SPECIFICATION Spec
INVARIANTS SchemeOk CubicOk LookOk Emit
CHECK_DEADLOCK FALSE
