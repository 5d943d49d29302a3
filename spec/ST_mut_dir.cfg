SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
Ops = 3
Crashes = 1
Groups = {{"crps", "iou_determ"}}
Reconf = {"ax"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = FALSE
Tolerant = FALSE
INVARIANTS NoneFails RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
