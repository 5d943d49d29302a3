SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 2
Crashes = 0
Groups = {{"crps", "brier", "iou_determ", "reliability", "corr"}}
Reconf = {"ax", "boot", "save", "new"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = TRUE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable Shown
CHECK_DEADLOCK FALSE
