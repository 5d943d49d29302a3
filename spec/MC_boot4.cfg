CONSTANT N = 5
INIT InitBoot
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT BootBounds
INVARIANT BootConstant
INVARIANT BootSkip
