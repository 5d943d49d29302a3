SPECIFICATION Spec
CONSTANTS Names = {"x"}
Mats = {"A", "B", "C"}
Ops = 2
Guarded = FALSE
CheckedFirst = TRUE
Hist = FALSE
INVARIANTS Only 
PROPERTIES Protected KeptUnlessAsked
CHECK_DEADLOCK FALSE
