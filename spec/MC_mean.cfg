CONSTANT N = 4
INIT InitMean
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT MeanIdentity
INVARIANT MeanFubini
INVARIANT MeanNaN
INVARIANT GroupsPartition
