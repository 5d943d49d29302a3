SPECIFICATION Spec
CONSTANTS N = 4
Procs = {1}
Runs = 1
Reorder = TRUE
UniqueNames = TRUE
CleanOnFail = TRUE
Hist = TRUE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle Shown
CHECK_DEADLOCK FALSE
