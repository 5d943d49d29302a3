SPECIFICATION Spec
INVARIANTS ExpSound TailAgrees MillsFalls Monotone Symmetric ShapeOrder Memoryless Unimodal TruncProper HurdleProper MulSound CrpsClosed MomentsOfTable
CHECK_DEADLOCK FALSE