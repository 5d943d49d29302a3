SPECIFICATION Spec
CONSTANTS MaxWorkers = 3
Ordered = FALSE
SameAxis = TRUE
INVARIANT LikeSerial
PROPERTY Ends
CHECK_DEADLOCK FALSE
