SPECIFICATION Spec
CONSTANTS Pick = 5
INVARIANTS NoRepeat KeptFirst Block SameFaces Emit
CHECK_DEADLOCK FALSE
