SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 3
Crashes = 0
Groups = {{"crps", "rmse", "brier", "cdf", "iou_determ", "reliability", "binned_spread_skill", "corr", "brier_decomp"}}
Reconf = {"ax"}
AtomicSave = TRUE
NamesShow = FALSE
ScratchWipes = TRUE
Hist = FALSE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
