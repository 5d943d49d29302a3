SPECIFICATION Spec
CONSTANTS Ops = 4
Copies = FALSE
InPlace = FALSE
Memo = FALSE
Hist = FALSE
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
