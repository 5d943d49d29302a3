SPECIFICATION Spec
CONSTANTS Opts = {"skip", "method", "bw", "ks", "reps", "conf", "mult"}
Ops = 22
KeepsUser = TRUE
Fills = TRUE
AtCall = "call"
Hist = TRUE
INVARIANTS Kept Filled ReadAtCall Shown
CHECK_DEADLOCK FALSE
