SPECIFICATION Spec
CONSTANTS W = 3 H = 3 Shades = {0, 101, 255} Pick = 41
INVARIANTS Even Judged Emit
CHECK_DEADLOCK FALSE
