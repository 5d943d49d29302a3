SPECIFICATION Spec
CONSTANTS MaxWorkers = 3
Ordered = TRUE
SameAxis = FALSE
INVARIANT LikeSerial
PROPERTY Ends
CHECK_DEADLOCK FALSE
