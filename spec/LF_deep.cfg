SPECIFICATION Spec
CONSTANTS Of = {"determ", "ens", "gauss", "gamma", "hurdle"}
Ops = 5
Checked = TRUE
Hist = FALSE
INVARIANTS NothingFromNonsense OnlyWellPosed 
PROPERTIES BuiltFit Repairable
CHECK_DEADLOCK FALSE
