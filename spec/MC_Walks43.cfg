SPECIFICATION Spec
CONSTANTS N = 4
 MaxF = 3
INVARIANTS LoopProgress LoopSimple LoopDone LabelsDone CutDone
CHECK_DEADLOCK FALSE
