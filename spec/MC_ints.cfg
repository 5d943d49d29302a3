CONSTANT N = 4
INIT InitInts
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT CorrProper
INVARIANT SSConserve
