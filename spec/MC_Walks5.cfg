SPECIFICATION Spec
CONSTANTS N = 5
 MaxF = 2
INVARIANTS LoopProgress LoopSimple LoopDone LabelsDone CutDone
CHECK_DEADLOCK FALSE
