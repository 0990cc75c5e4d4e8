SPECIFICATION Spec
CONSTANTS Corners = 4 Materials = 2 Vals <- ValsA Base = 0 Pick = 3
INVARIANTS Fills Inside Stays Pure Same Mean2 Emit
CHECK_DEADLOCK FALSE
