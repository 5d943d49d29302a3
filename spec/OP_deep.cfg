SPECIFICATION Spec
CONSTANTS Opts = {"skip", "reps", "mult"}
Ops = 7
KeepsUser = TRUE
Fills = TRUE
AtCall = "call"
Hist = FALSE
INVARIANTS Kept Filled ReadAtCall 
CHECK_DEADLOCK FALSE
