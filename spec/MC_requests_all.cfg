SPECIFICATION Spec
CONSTANTS MaxDim = 3
MaxLen = 3
INVARIANTS Ends Explicit LastFirst Complete NoMiddle Axes
CHECK_DEADLOCK FALSE
