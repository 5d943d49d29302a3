------------------------------- MODULE MCDist -------------------------------
(* Exhaustive check of the tables and of the way truncated and hurdle distributions are built from them. *)
EXTENDS Dist
VARIABLE x
Next == FALSE /\ UNCHANGED x
Init == \/ \E j \in -40..39 : x = [k |-> "gauss", a |-> 0, j |-> j]
        \/ \E a \in 1..8 : \E j \in 0..79 : x = [k |-> "gamma", a |-> a, j |-> j]
T(k, a, j) == IF k = "gauss" THEN Phi(j) ELSE Gam(a, j)
Monotone == T(x.k, x.a, x.j) <= T(x.k, x.a, x.j + 1) /\ T(x.k, x.a, x.j) >= 0 /\ T(x.k, x.a, x.j + 1) <= Unit
Symmetric == x.k = "gauss" => Near(Phi(x.j) + Phi(-x.j), Unit, 1)
ShapeOrder == (x.k = "gamma" /\ x.a < 8) => Gam(x.a + 1, x.j) <= Gam(x.a, x.j)
(* Gamma of shape 1: memoryless *)
Memoryless == (x.k = "gamma" /\ x.a = 2) => \A s \in {1, 4, 7} : x.j + s <= 80 =>
                 Near(Unit - Gam(2, x.j + s), Mul(Unit - Gam(2, x.j), Unit - Gam(2, s)), 3)
(* Simpson: the tables have the Gaussian density as derivative; the change over a cell is between its neighbours' pattern *)
Unimodal == (x.k = "gauss" /\ x.j < 39) => IF x.j >= 0 THEN Phi(x.j + 1) - Phi(x.j) >= Phi(x.j + 2) - Phi(x.j + 1)
                                           ELSE TRUE
(* truncated and hurdle distributions are proper *)
TruncProper == \A z0 \in {-16, -8, 0, 8} : (x.k = "gauss" /\ x.j >= z0) =>
      LET T0 == Phi(z0) IN \E v \in {((Phi(x.j) - T0) \div 4096) * 4096} : Mul(v, Unit) <= Unit - T0
HurdleProper == x.k = "gamma" => \A p \in {0, Unit \div 3, Unit \div 2, Unit} :
      LET h(j) == HurdleOf(p, Gam(x.a, j), j > 0)
      IN h(x.j) >= Unit - p /\ h(x.j) <= h(x.j + 1) /\ h(x.j + 1) <= Unit /\ (p = 0 => h(x.j) = Unit)
MulSound == LET a == T(x.k, x.a, x.j) IN Mul(a, Unit) = a /\ Mul(Unit, a) = a /\ Mul(a, 0) = 0 /\ Mul(a, Unit \div 2) \in {a \div 2}
(* CRPS of the standard normal at the table points: at 0 it is 2 phi(0) - 1/sqrt(pi); the trapezoid rule adds phi(0) / 384 *)
Whole == [i \in 1..81 |-> Phi(i - 41)]
CrpsClosed == x.k = "gauss" /\ x.j = 0 => Near(CrpsSum(Whole, 41), 1960376 + 8717, 300)
MomentsOfTable == x.k = "gauss" /\ x.j = 0 =>
      Near(MeanSum(Whole), 40 * 1048576, 1000) /\ Near(SecondSum(Whole), 16384 * 1664, 16384 * 1)
(* Student tails at angles with rational sine and cosine *)
(* far tails: the relative tables agree with the absolute ones where both have digits *)
ExpSound == /\ ExpNeg(0) = Unit /\ \A s \in {1, 64, 127, 128, 500} : LET n == x.j * x.j + 100 IN Near(ExpNeg(n + s), Mul(ExpNeg(n), ExpNeg(s)), 4) /\ ExpNeg(n + s) <= ExpNeg(n)
TailAgrees == IF x.k = "gauss" THEN x.j >= 0 => Near(Mul(Unit - Phi(x.j), MillsTab[1]), Mul(Unit \div 2, Mul(ExpNeg(x.j * x.j), MillsTab[x.j + 1])), 8)
              ELSE x.a \in {2, 4, 6} => Near(Mul(Unit - Gam(x.a, x.j), RatioUnit(32, ErlangPoly(x.a \div 2, x.j))), ExpNeg(32 * x.j), 8)
MillsFalls == x.k = "gauss" => \A i \in {x.j + 41 + 80 * m : m \in 0..4} : MillsTab[i + 1] < MillsTab[i] /\ MillsTab[i + 2] + MillsTab[i] >= 2 * MillsTab[i + 1] - 1
Angles == <<<<0, 1, 1>>, <<7, 24, 25>>, <<5, 12, 13>>, <<8, 15, 17>>, <<3, 4, 5>>, <<4, 3, 5>>, <<15, 8, 17>>, <<12, 5, 13>>, <<24, 7, 25>>, <<1, 0, 1>>>>
InitTail == \E i \in 1..9 : \E nu \in {2 * m : m \in 1..20} : x = [k |-> "t", i |-> i, nu |-> nu]
TailAt(nu, i) == TTail(nu, Frac(Angles[i][1], Angles[i][3]), Frac(Angles[i][2], Angles[i][3]), 0)
TailProper == TailAt(x.nu, x.i) >= -8 /\ TailAt(x.nu, x.i) <= Unit /\ TailAt(x.nu, x.i + 1) <= TailAt(x.nu, x.i) + 8
TailThin == TailAt(x.nu + 2, x.i) <= TailAt(x.nu, x.i) + 8
TailEnds == TailAt(x.nu, 1) = Unit /\ Near(TailAt(x.nu, 10), 0, 8)
TailTwo == TailAt(2, x.i) = Unit - Frac(Angles[x.i][1], Angles[x.i][3])
FracSound == \A i \in 1..9 : LET f == Frac(Angles[i][1], Angles[i][3]) g == Frac(Angles[i][2], Angles[i][3]) IN Near(Mul(f, f) + Mul(g, g), Unit, 4)
SpecTail == InitTail /\ [][Next]_x
Spec == Init /\ [][Next]_x
=============================================================================
