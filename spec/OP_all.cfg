SPECIFICATION Spec
CONSTANTS Opts = {"skip", "reps"}
Ops = 6
KeepsUser = TRUE
Fills = TRUE
AtCall = "call"
Hist = FALSE
INVARIANTS Kept Filled ReadAtCall 
CHECK_DEADLOCK FALSE
