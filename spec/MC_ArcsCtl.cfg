SPECIFICATION Spec
CONSTANTS Spheres = 3
 Most = 3
 Iters = 4
 Clamped = {3}
INVARIANTS NeverMore ClampedEmpty OneMore
PROPERTY Ends
CHECK_DEADLOCK FALSE
