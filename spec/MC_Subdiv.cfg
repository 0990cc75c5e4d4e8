SPECIFICATION Spec
CONSTANTS N = 4 MaxF = 4 MaxSub = 2 MaxSize = 4
INVARIANTS Convex Emitted
PROPERTIES Preserved
CHECK_DEADLOCK FALSE
