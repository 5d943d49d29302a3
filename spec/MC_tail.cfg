SPECIFICATION SpecTail
INVARIANTS TailProper TailThin TailEnds TailTwo FracSound
CHECK_DEADLOCK FALSE
