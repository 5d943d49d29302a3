SPECIFICATION SpecMany
INVARIANTS Many
CHECK_DEADLOCK FALSE
