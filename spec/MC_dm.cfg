CONSTANT N = 3
INIT InitDM
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT DMSwap
INVARIANT HarveyPos
