SPECIFICATION Spec
CONSTANTS N = 5
Procs = {1}
Runs = 3
Reorder = TRUE
UniqueNames = TRUE
CleanOnFail = TRUE
Hist = FALSE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle 
CHECK_DEADLOCK FALSE
