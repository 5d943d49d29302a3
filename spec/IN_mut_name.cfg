SPECIFICATION Spec
CONSTANTS N = 2
Procs = {1, 2}
Runs = 1
Reorder = TRUE
UniqueNames = FALSE
CleanOnFail = TRUE
Hist = FALSE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle 
CHECK_DEADLOCK FALSE
