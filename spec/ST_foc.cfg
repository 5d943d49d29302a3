SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 7
Crashes = 0
Groups = {{"binned_spread_skill", "sq_error", "variance"}, {"binned_spread_skill"}, {"reliability", "cdf"}, {"reliability"}, {"iou_determ"}, {"iou_prob", "cdf"}, {"iou_prob"}, {"corr"}, {"brier_decomp", "brier"}, {"brier_decomp"}, {"roc", "sharpness"}, {"cdf", "brier"}, {"crps", "rmse", "error"}, {"spread", "ab_error", "f_determ", "variance"}}
Reconf = {"ax", "boot", "save"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = TRUE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable Shown
CHECK_DEADLOCK FALSE
