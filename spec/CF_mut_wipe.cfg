SPECIFICATION Spec
CONSTANTS Classes = {"ens"}
Ops = 5
Recollapse = TRUE
ScratchWipes = FALSE
Hist = FALSE
INVARIANTS AsBuiltAnew
CHECK_DEADLOCK FALSE
