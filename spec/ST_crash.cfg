SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 3
Crashes = 2
Groups = {{"crps", "brier", "reliability"}}
Reconf = {"ax"}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
