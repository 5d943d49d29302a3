SPECIFICATION Spec
CONSTANTS N = 2
Procs = {1}
Runs = 2
Reorder = TRUE
UniqueNames = TRUE
CleanOnFail = TRUE
Hist = TRUE
INVARIANTS NeverWrong FailsOnlyForCause CleanWhenIdle Shown
CHECK_DEADLOCK FALSE
