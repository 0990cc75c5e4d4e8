SPECIFICATION Spec
CONSTANTS Count = 9
INVARIANTS Sorted Lowest Closed Few Frontier Eigen Emit
CHECK_DEADLOCK FALSE
