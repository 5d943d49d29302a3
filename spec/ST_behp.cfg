SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
Ops = 3
Crashes = 0
Groups = {{"crps"}}
Reconf = {}
AtomicSave = TRUE
NamesShow = TRUE
ScratchWipes = TRUE
Hist = TRUE
DirThere = FALSE
Tolerant = TRUE
INVARIANTS NoneFails RightAnswers WholeAnswers Durable Shown
CHECK_DEADLOCK FALSE
