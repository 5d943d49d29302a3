SPECIFICATION Spec
INVARIANTS Uniform NothingLost OneEach CoordsExist UnitsKnown
CHECK_DEADLOCK FALSE
