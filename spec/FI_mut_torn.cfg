SPECIFICATION Spec
CONSTANTS Names = {"x"}
Mats = {"A", "B", "C"}
Ops = 2
Guarded = TRUE
CheckedFirst = FALSE
Hist = FALSE
INVARIANTS Only 
PROPERTIES Protected KeptUnlessAsked
CHECK_DEADLOCK FALSE
