SPECIFICATION Spec
CONSTANTS Of = {"determ", "ens", "gauss", "gamma", "hurdle"}
Ops = 2
Checked = FALSE
Hist = FALSE
INVARIANTS NothingFromNonsense OnlyWellPosed 
PROPERTIES BuiltFit Repairable
CHECK_DEADLOCK FALSE
