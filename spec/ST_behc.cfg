SPECIFICATION Spec
CONSTANTS Procs = {1}
Ops = 2
Crashes = 1
Groups = {{"crps", "brier", "reliability"}}
Reconf = {}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = TRUE
DirThere = TRUE
Tolerant = TRUE
INVARIANTS RightAnswers WholeAnswers Durable Shown
CHECK_DEADLOCK FALSE
