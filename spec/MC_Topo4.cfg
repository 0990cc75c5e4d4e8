SPECIFICATION Spec
CONSTANTS N = 4
 MaxF = 8
 Emit = TRUE
INVARIANTS Handshake BoundaryBalanced OnePathPerVertex ClosedEven BoundaryEdgesU Emitted
CHECK_DEADLOCK FALSE
