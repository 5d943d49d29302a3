SPECIFICATION Spec
CONSTANTS Opts = {"skip"}
Ops = 5
KeepsUser = TRUE
Fills = TRUE
AtCall = "build"
Hist = FALSE
INVARIANTS Kept Filled ReadAtCall 
CHECK_DEADLOCK FALSE
