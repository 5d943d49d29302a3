-------------------------------- MODULE Dist --------------------------------
(* Distribution functions in fixed point: a probability p is the integer p * 2^30. *)
EXTENDS Nd, Tables
Unit == 1073741824
(* floor(a * b / 2^30) for 0 <= a, b <= 2^30, without leaving 32 bits *)
MulLo(a, b) == LET a1 == a \div 32768 a0 == a % 32768 b1 == b \div 32768 b0 == b % 32768
                   mid == a1 * b0 + (a0 * b1 + (a0 * b0) \div 32768)
               IN a1 * b1 + mid \div 32768
Mul(a, b) == IF a >= Unit THEN b ELSE IF b >= Unit THEN a ELSE MulLo(a, b)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

Phi(j) == IF j >= 0 THEN PhiTab[j + 1] ELSE Unit - PhiTab[-j + 1]     \* standard normal at j/8
Gam(a2, i) == IF i <= 0 THEN 0 ELSE GamTab[a2][i + 1]                 \* shape a2/2, scale 1, at i/4
(* truncation at zero: the conditional distribution given a non-negative value; T at the threshold, T0 at zero *)
TruncIs(v, T, T0, positive, tol) == IF ~positive THEN v = 0 ELSE v >= 0 /\ v <= Unit /\ Near(Mul(v, Unit - T0), T - T0, tol)
(* hurdle: zero with probability 1 - p, otherwise the distribution whose value is G *)
HurdleOf(p, G, positive) == (Unit - p) + (IF positive THEN Mul(p, G) ELSE 0)

(* far tails: exp(-n/128) and what is left of a distribution relative to what is left at zero *)
ExpNeg(n) == IF n >= 3072 THEN 0 ELSE Mul(ExpTab[n \div 128 + 1], ExpFine[n - 128 * (n \div 128) + 1])
ErlangPoly(n, z) == IF n = 1 THEN 32 ELSE IF n = 2 THEN 32 + 8 * z ELSE 32 + 8 * z + z * z     \* Gamma of shape n at z/4: e^(-z/4) times this / 32
RECURSIVE BitsOf(_, _, _, _)
BitsOf(r, b, n, acc) == IF n = 0 THEN acc ELSE IF 2 * r >= b THEN BitsOf(2 * r - b, b, n - 1, 2 * acc + 1) ELSE BitsOf(2 * r, b, n - 1, 2 * acc)
RatioUnit(a, b) == IF a >= b THEN Unit ELSE BitsOf(a, b, 30, 0)
TailIs(c, v, tol) ==           \* v: conditional probability of not exceeding the threshold, c.z beyond zero at c.z0
  IF c.z <= 0 THEN v = 0
  ELSE /\ v >= 0 /\ v <= Unit
       /\ IF c.k = "gtail" THEN Near(Mul(Unit - v, MillsTab[c.z0 + 1]), Mul(ExpNeg(2 * c.z0 * c.z + c.z * c.z), MillsTab[c.z0 + c.z + 1]), tol)
          ELSE Near(Mul(Unit - v, RatioUnit(ErlangPoly(c.a, c.z0), ErlangPoly(c.a, c.z0 + c.z))), ExpNeg(32 * c.z), tol)

(* one cell of a verdict table: c.k kind, c.z / c.z0 table position of the threshold / of zero, c.a shape, c.p chance *)
CellIs(c, v, tol) ==
  IF c.k \in {"gtail", "etail"} THEN TailIs(c, v, tol) ELSE
  LET T == IF c.k = "gauss" THEN Phi(c.z) ELSE Gam(c.a, c.z)
      T0 == IF c.k = "gauss" THEN Phi(c.z0) ELSE Gam(c.a, c.z0)
  IN CASE c.tr -> TruncIs(v, T, T0, c.sg > 0, tol)
       [] c.k = "hurdle" -> Near(v, HurdleOf(c.p, T, c.sg > 0), tol)
       [] OTHER -> Near(v, T, tol)

Proper(F) == /\ \A i \in 1..Len(F) : F[i] >= 0 /\ F[i] <= Unit
             /\ \A i \in 1..(Len(F) - 1) : F[i] <= F[i + 1] + 1

(* the integral of the squared difference to the step at grid point k, in units of (grid step) * 2^-20:
   trapezoid sums on either side of the observation *)
Sq20(a) == MulLo(a, a) \div 1024
SumSq(F, lo, hi) == IF lo >= hi THEN 0
                    ELSE ISum([i \in 1..(hi - lo + 1) |-> IF F[lo + i - 1] >= Unit THEN 1048576 ELSE Sq20(F[lo + i - 1])])
                         - ((IF F[lo] >= Unit THEN 1048576 ELSE Sq20(F[lo])) + (IF F[hi] >= Unit THEN 1048576 ELSE Sq20(F[hi]))) \div 2
CrpsSum(F, k) == SumSq(F, 1, k) + SumSq([i \in 1..Len(F) |-> Unit - F[i]], k, Len(F))

(* mean and variance of the distribution with values F on an evenly spaced grid, where F[1] = 0 and F ends near 1:
   distance of the mean from the first point in units of step * 2^-20, second moment about it in step^2 * 2^-14 *)
MeanSum(F) == ISum([i \in 1..Len(F) |-> (Unit - F[i]) \div 1024]) - (Unit - F[1]) \div 2048
SecondSum(F) == 2 * ISum([i \in 1..Len(F) |-> (i - 1) * ((Unit - F[i] + 32768) \div 65536)])

(* ---- Student t: two-sided tail with nu degrees of freedom ---- *)
RECURSIVE Bits(_, _, _, _)
Bits(r, b, n, acc) == IF n = 0 THEN acc ELSE IF 2 * r >= b THEN Bits(2 * r - b, b, n - 1, 2 * acc + 1) ELSE Bits(2 * r, b, n - 1, 2 * acc)
Frac(a, b) == IF a >= b THEN Unit ELSE Bits(a, b, 30, 0)                \* floor(2^30 a / b), 0 <= a, 0 < b < 2^30
(* sine^2 of the angle whose tangent is t / sqrt(nu), for t^2 = <<a, b>> *)
AngleSq(t2, nu) == Frac(t2[1], nu * t2[2] + t2[1])
TwoOverPi == 683565276
(* sum of the terms x, x c2 f(1), x c2^2 f(1) f(2), ... (n terms after the first), f(j) = <<num, den>> *)
RECURSIVE Series(_, _, _, _, _)
Series(x, c2, F(_), j, n) == IF j > n THEN x ELSE LET f == F(j) IN x + Series((Mul(x, c2) \div f[2]) * f[1] + ((Mul(x, c2) % f[2]) * f[1]) \div f[2], c2, F, j + 1, n)
(* s, c: sine and cosine, q: angle as a share of the right angle; all in fixed point *)
TTail(nu, s, c, q) ==
  LET c2 == Mul(c, c)
      ev(j) == <<2 * j - 1, 2 * j>>
      od(j) == <<2 * j, 2 * j + 1>>
  IN IF nu % 2 = 0 THEN Unit - Series(s, c2, ev, 1, (nu - 2) \div 2)
     ELSE IF nu = 1 THEN Unit - q
     ELSE Unit - q - Series(Mul(TwoOverPi, Mul(s, c)), c2, od, 1, (nu - 3) \div 2)
=============================================================================
