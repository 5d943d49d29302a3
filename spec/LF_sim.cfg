SPECIFICATION Spec
CONSTANTS Of = {"determ", "ens", "gauss", "gamma", "hurdle"}
Ops = 16
Checked = TRUE
Hist = TRUE
INVARIANTS NothingFromNonsense OnlyWellPosed Shown
CHECK_DEADLOCK FALSE
