SPECIFICATION Spec
CONSTANTS Classes = {"determ", "ens", "gauss", "gamma", "hurdle"}
Ops = 8
Recollapse = TRUE
ScratchWipes = TRUE
Hist = TRUE
INVARIANTS AsBuiltAnew Shown
CHECK_DEADLOCK FALSE
