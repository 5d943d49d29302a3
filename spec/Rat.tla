-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<n, d>>, d > 0, reduced.  <<0,0>> is NaN, <<1,0>> / <<-1,0>> are the
   infinities and <<7,0>> stands for "a number that is not the expected kind of rational" (the
   recorder writes it for a float that is no rational with a small denominator); it equals nothing
   that the specification computes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
NaN == <<0, 0>>
IsNum(r) == r[2] > 0
R(n, d) == IF d = 0 THEN NaN
           ELSE LET g == Gcd(Abs(n), Abs(d))
                    s == IF d < 0 THEN -1 ELSE 1
                IN <<s * (n \div g), s * (d \div g)>>
Zero == <<0, 1>>
One == <<1, 1>>
RAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaN
              ELSE IF a[2] = b[2] THEN R(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2])
                   IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaN
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                       gg == IF g = 0 THEN 1 ELSE g
                       hh == IF h = 0 THEN 1 ELSE h
                   IN R((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
RInv(a) == IF a[1] = 0 \/ a[2] = 0 THEN NaN ELSE R(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RSq(a) == RMul(a, a)
RAbs(a) == <<Abs(a[1]), a[2]>>
RLt(a, b) == IsNum(a) /\ IsNum(b) /\ LET g == Gcd(a[2], b[2])
                                     IN a[1] * (b[2] \div g) < b[1] * (a[2] \div g)
REq(a, b) == a = b
RLe(a, b) == a = b \/ RLt(a, b)
RGt(a, b) == RLt(b, a)
RSum(q) == FoldLeft(RAdd, Zero, q)
RMin(q) == FoldLeft(LAMBDA a, b : IF RLt(b, a) THEN b ELSE a, q[1], q)
RMax(q) == FoldLeft(LAMBDA a, b : IF RLt(a, b) THEN b ELSE a, q[1], q)

(* mean of a sequence; with skip, NaN elements are left out, otherwise they win *)
RMean(q, skip) ==
  LET w == IF skip THEN SelectSeq(q, IsNum) ELSE q
  IN IF w = <<>> THEN NaN ELSE LET s == RSum(w) IN IF IsNum(s) THEN RMul(s, R(1, Len(w))) ELSE NaN

ISum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
IMin(q) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, q[1], q)
IMax(q) == FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, q[1], q)
Cnt(q, P(_)) == FoldLeft(LAMBDA a, b : IF P(b) THEN a + 1 ELSE a, 0, q)
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
All(q, P(_)) == \A i \in 1..Len(q) : P(q[i])
=============================================================================
