SPECIFICATION Spec
CONSTANTS MaxWorkers = 3
Ordered = TRUE
SameAxis = TRUE
INVARIANT LikeSerial
PROPERTY Ends
CHECK_DEADLOCK FALSE
