SPECIFICATION Spec
INVARIANTS CurveOk RotOk BoxOk Emit
CHECK_DEADLOCK FALSE
