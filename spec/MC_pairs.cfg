CONSTANT N = 3
INIT InitPairs
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT RelComplete
INVARIANT DecompAdds
INVARIANT RocArea
INVARIANT IouBounds
