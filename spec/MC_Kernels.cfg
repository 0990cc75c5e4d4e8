SPECIFICATION Spec
INVARIANTS SplineOk KernelOk Exact Emit
CHECK_DEADLOCK FALSE
