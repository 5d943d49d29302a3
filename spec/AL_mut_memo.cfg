SPECIFICATION Spec
CONSTANTS Ops = 4
Copies = TRUE
InPlace = FALSE
Memo = TRUE
Hist = FALSE
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
