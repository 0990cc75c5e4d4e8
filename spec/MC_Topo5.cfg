SPECIFICATION Spec
CONSTANTS N = 5
 MaxF = 3
 Emit = TRUE
INVARIANTS Handshake BoundaryBalanced OnePathPerVertex ClosedEven BoundaryEdgesU Emitted
CHECK_DEADLOCK FALSE
