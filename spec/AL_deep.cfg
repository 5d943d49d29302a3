SPECIFICATION Spec
CONSTANTS Ops = 6
Copies = TRUE
InPlace = FALSE
Memo = FALSE
Hist = FALSE
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
