SPECIFICATION Spec
CONSTANTS N = 3
Procs = {1, 2}
Runs = 2
Reorder = TRUE
UniqueNames = TRUE
CleanOnFail = TRUE
Hist = FALSE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle 
CHECK_DEADLOCK FALSE
