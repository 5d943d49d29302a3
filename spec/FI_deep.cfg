SPECIFICATION Spec
CONSTANTS Names = {"x", "y"}
Mats = {"A", "B", "C"}
Ops = 6
Guarded = TRUE
CheckedFirst = TRUE
Hist = FALSE
INVARIANTS Only 
PROPERTIES Protected KeptUnlessAsked
CHECK_DEADLOCK FALSE
