SPECIFICATION Spec
CONSTANTS Opts = {"skip"}
Ops = 3
KeepsUser = FALSE
Fills = TRUE
AtCall = "call"
Hist = FALSE
INVARIANTS Kept Filled ReadAtCall 
CHECK_DEADLOCK FALSE
