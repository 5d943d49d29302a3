SPECIFICATION Spec
CONSTANTS Ops = 5
Copies = TRUE
InPlace = FALSE
Memo = FALSE
Hist = FALSE
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
