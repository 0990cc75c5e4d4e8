SPECIFICATION Spec
CONSTANTS N = 5
 D = 4
INVARIANTS ArithOK OrderOK RootOK TransOK AngleOK VecOK NanOK
CHECK_DEADLOCK FALSE
