SPECIFICATION Spec
CONSTANTS Dims = {3}
INVARIANTS InReach Unity Blurred Operators Stencilled Emit
CHECK_DEADLOCK FALSE
