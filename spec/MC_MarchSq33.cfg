SPECIFICATION Spec
CONSTANTS NX = 3 NY = 3 Free = TRUE
INVARIANTS Progress TableOk Good Emit
CHECK_DEADLOCK FALSE
