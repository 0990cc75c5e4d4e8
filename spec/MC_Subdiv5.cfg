SPECIFICATION Spec
CONSTANTS N = 5 MaxF = 4 MaxSub = 1 MaxSize = 4
INVARIANTS Convex Emitted
PROPERTIES Preserved
CHECK_DEADLOCK FALSE
