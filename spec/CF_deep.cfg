SPECIFICATION Spec
CONSTANTS Classes = {"determ", "ens", "gauss", "gamma", "hurdle"}
Ops = 7
Recollapse = TRUE
ScratchWipes = TRUE
Hist = FALSE
INVARIANTS AsBuiltAnew Coherent
CHECK_DEADLOCK FALSE
