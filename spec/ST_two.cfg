SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
Ops = 3
Crashes = 1
Groups = {{"crps", "iou_determ"}}
Reconf = {"ax"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = FALSE
Tolerant = TRUE
INVARIANTS NoneFails RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
