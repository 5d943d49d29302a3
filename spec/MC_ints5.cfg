CONSTANT N = 5
INIT InitInts
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT CorrProper
INVARIANT SSConserve
