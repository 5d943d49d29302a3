SPECIFICATION Spec
CONSTANTS Opts = {"skip"}
Ops = 3
KeepsUser = TRUE
Fills = FALSE
AtCall = "call"
Hist = FALSE
INVARIANTS Kept Filled ReadAtCall 
CHECK_DEADLOCK FALSE
