SPECIFICATION Spec
CONSTANTS Names = {"x"}
Mats = {"A", "B", "C"}
Ops = 3
Guarded = TRUE
CheckedFirst = TRUE
Hist = TRUE
INVARIANTS Only Shown
PROPERTIES Protected KeptUnlessAsked
CHECK_DEADLOCK FALSE
