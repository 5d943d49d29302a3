CONSTANT N = 4
INIT InitEns
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT ProbProper
INVARIANT ProbEnds
INVARIANT BrierBounds
INVARIANT RankRange
INVARIANT RankOrder
INVARIANT RelIdx
INVARIANT CrpsIntegral
INVARIANT CrpsSign
INVARIANT CollapseBounds
INVARIANT SpreadVar
