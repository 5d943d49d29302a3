SPECIFICATION Spec
CONSTANTS Ops = 4
Copies = TRUE
InPlace = FALSE
Memo = FALSE
Hist = TRUE
INVARIANTS Untouched Repeatable Kept Shown
CHECK_DEADLOCK FALSE
