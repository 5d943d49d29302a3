SPECIFICATION Spec
CONSTANTS Opts = {"o"}
Ops = 18
KeepsUser = TRUE
Fills = TRUE
AtCall = "call"
Hist = TRUE
INVARIANTS Kept Filled ReadAtCall Shown
CHECK_DEADLOCK FALSE
