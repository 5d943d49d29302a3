SPECIFICATION Spec
CONSTANTS Classes = {"ens"}
Ops = 3
Recollapse = FALSE
ScratchWipes = TRUE
Hist = FALSE
INVARIANTS AsBuiltAnew
CHECK_DEADLOCK FALSE
