SPECIFICATION Spec
CONSTANTS Corners = 3 Materials = 3 Vals <- ValsB Base = 0 Pick = 23
INVARIANTS Fills Inside Stays Pure Same Mean2 Emit
CHECK_DEADLOCK FALSE
