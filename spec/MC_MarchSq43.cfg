SPECIFICATION Spec
CONSTANTS NX = 4 NY = 3 Free = FALSE
INVARIANTS Progress TableOk Good Emit
CHECK_DEADLOCK FALSE
