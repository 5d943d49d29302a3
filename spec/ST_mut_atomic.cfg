SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 2
Crashes = 1
Groups = {{"crps"}}
Reconf = {"ax"}
AtomicSave = FALSE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
