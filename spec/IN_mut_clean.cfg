SPECIFICATION Spec
CONSTANTS N = 2
Procs = {1}
Runs = 2
Reorder = TRUE
UniqueNames = TRUE
CleanOnFail = FALSE
Hist = FALSE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle 
CHECK_DEADLOCK FALSE
