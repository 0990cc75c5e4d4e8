SPECIFICATION Spec
CONSTANTS W = 3 H = 3 Shades = {0, 101, 255} Pick = 3
INVARIANTS Even Judged Emit
CHECK_DEADLOCK FALSE
