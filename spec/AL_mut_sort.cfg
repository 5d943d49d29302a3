SPECIFICATION Spec
CONSTANTS Ops = 4
Copies = TRUE
InPlace = TRUE
Memo = FALSE
Hist = FALSE
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
