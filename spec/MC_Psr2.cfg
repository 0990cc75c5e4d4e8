SPECIFICATION Spec
CONSTANTS Dims = {2}
INVARIANTS InReach Unity Blurred Operators Stencilled Emit
CHECK_DEADLOCK FALSE
