SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 9
Crashes = 0
Groups = {{"crps", "rmse", "brier", "cdf", "roc", "sharpness", "iou_determ", "iou_prob", "spread", "variance", "f_determ", "error", "ab_error", "sq_error", "reliability", "binned_spread_skill", "corr", "brier_decomp"}}
Reconf = {"ax", "boot", "save", "new"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = TRUE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable Shown
CHECK_DEADLOCK FALSE
