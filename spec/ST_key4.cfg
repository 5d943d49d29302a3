SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 4
Crashes = 0
Groups = {{"crps", "rmse", "brier", "cdf", "iou_determ", "reliability", "binned_spread_skill", "corr", "brier_decomp"}}
Reconf = {"ax", "boot", "save", "new"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
