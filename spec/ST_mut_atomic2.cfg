SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
Ops = 2
Crashes = 0
Groups = {{"crps"}}
Reconf = {}
AtomicSave = FALSE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = FALSE
DirThere = FALSE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable 
CHECK_DEADLOCK FALSE
