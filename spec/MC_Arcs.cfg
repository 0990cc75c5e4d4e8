SPECIFICATION Spec
CONSTANTS Size = 2
 Most = 3
 Pick = 40
INVARIANTS Good Possible Agree Emit
PROPERTY Steady
CHECK_DEADLOCK FALSE
