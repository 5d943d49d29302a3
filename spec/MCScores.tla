------------------------------ MODULE MCScores ------------------------------
(* Exhaustive check, over all small inputs, that the definitions of Scores/Boot have the properties
   the users rely on.  x is one input; each configuration picks one Init and its invariants. *)
EXTENDS Boot
CONSTANT N          \* size bound
VARIABLE x
vars == <<x>>
Next == FALSE /\ UNCHANGED x
Sq(S, n) == [1..n -> S]
SeqsUpTo(S, n) == UNION {Sq(S, k) : k \in 1..n}
Rats(k) == {R(i, k) : i \in 0..k}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

(* ---- C01: means over axes ---- *)
InitMean == \E s \in {<<2, 2>>, <<2, 1, 2>>, <<4>>, <<1, 3>>} : \E v \in Sq({0, 1, 3, Miss}, Size(s)) :
              x = [s |-> s, v |-> v]
MArr == Arr(x.s, [i \in 1..Len(x.v) |-> Val(2, x.v[i])])
MeanIdentity == MeanOver(MArr, {}, FALSE) = MArr
MeanFubini == (\A i \in 1..Len(x.v) : x.v[i] # Miss) =>
   \A A \in SUBSET (1..Len(x.s)) :
      LET inner == MeanOver(MArr, A, FALSE)
      IN MeanOver(inner, 1..Len(inner.s), FALSE) = MeanOver(MArr, 1..Len(x.s), FALSE)
MeanNaN == \A A \in SUBSET (1..Len(x.s)) :
      LET g == Groups(x.s, A) r == MeanOver(MArr, A, FALSE) z == MeanOver(MArr, A, TRUE)
      IN \A k \in 1..Len(g) : /\ (r.v[k] = NaN) <=> (\E i \in 1..Len(g[k]) : x.v[g[k][i]] = Miss)
                              /\ (z.v[k] = NaN) <=> (\A i \in 1..Len(g[k]) : x.v[g[k][i]] = Miss)
                              /\ r.v[k] # NaN => z.v[k] = r.v[k]
GroupsPartition == \A A \in SUBSET (1..Len(x.s)) :
      LET g == Groups(x.s, A)
      IN /\ Len(g) = Size(KeptShape(x.s, A))
         /\ UNION {Range(g[k]) : k \in 1..Len(g)} = 1..Size(x.s)
         /\ ISum([k \in 1..Len(g) |-> Len(g[k])]) = Size(x.s)

(* ---- C03, C05: ensembles ---- *)
InitEns == \E q \in SeqsUpTo(0..3, N) : \E o \in 0..3 : x = [q |-> [i \in 1..Len(q) |-> R(q[i], 1)], o |-> R(o, 1)]
ProbProper == \A t \in -1..4 : LET p == ProbBelow(x.q, R(t, 1))
                IN RLe(Zero, p) /\ RLe(p, One) /\ RLe(p, ProbBelow(x.q, R(t + 1, 1))) /\ p = ProbBelow(Rev(x.q), R(t, 1))
ProbEnds == ProbBelow(x.q, R(-1, 1)) = Zero /\ ProbBelow(x.q, R(3, 1)) = One
BrierBounds == \A over \in BOOLEAN : LET p == IF over THEN RSub(One, ProbBelow(x.q, R(2, 1))) ELSE ProbBelow(x.q, R(2, 1))
                  b == RSq(RSub(p, B2R(EventOf(x.o, R(2, 1), over)))) IN RLe(Zero, b) /\ RLe(b, One)
RankRange == RankLo(x.q, x.o) >= 1 /\ RankLo(x.q, x.o) + Ties(x.q, x.o) <= Len(x.q) + 1
RankOrder == RankLo(x.q, x.o) = RankLo(Rev(x.q), x.o)
RelIdx == LET h == [i \in 1..Len(x.q) |-> x.q[i][1] + 1]
              flat == \A i \in 1..Len(h) : h[i] = h[1]
          IN (ReliabilityIndex(h) = Zero) <=> flat
(* CRPS: energy form equals the integral of the squared difference of the step functions *)
CrpsIntegral ==
  LET seg(t) == RSq(RSub(ProbBelow(x.q, R(t, 1)), B2R(RLe(x.o, R(t, 1)))))   \* constant on [t, t+1)
  IN CrpsOf(x.q, x.o) = RSum([i \in 1..4 |-> seg(i - 1)])
CrpsSign == RLe(Zero, CrpsOf(x.q, x.o)) /\ (CrpsOf(x.q, x.o) = Zero <=> \A i \in 1..Len(x.q) : x.q[i] = x.o)
CollapseBounds == \A how \in {"mean", "median"} : RLe(Collapse("min", x.q), Collapse(how, x.q)) /\ RLe(Collapse(how, x.q), Collapse("max", x.q))
SpreadVar == (SpreadOf(x.q, FALSE) = Zero <=> VarOf(x.q) = Zero) /\ RLe(Zero, VarOf(x.q))

(* ---- probabilities with events: C06, C07, C10, C11 ---- *)
InitPairs == \E n \in 1..N : \E f \in Sq(Rats(4), n) : \E e \in Sq(BOOLEAN, n) : x = [f |-> f, e |-> e]
RelComplete == \A nb \in 1..5 : LET r == RelSlice(x.f, x.e, nb) n == Len(x.f)
   IN /\ ISum(r.cnt) = n /\ ISum(r.out) = n
      /\ RSum([k \in 1..Len(r.cnt) |-> RMul(R(r.cnt[k], n), r.pred[k])]) = RMean(x.f, FALSE)
      /\ RSum([k \in 1..Len(r.cnt) |-> RMul(R(r.cnt[k], n), r.obs[k])]) = R(Cnt(x.e, LAMBDA b : b), n)
      /\ \A k \in 1..(Len(r.cnt) - 1) : RLt(r.pred[k], r.pred[k + 1])
      /\ \A i \in 1..n : RelBin(x.f[i], nb) \in 0..(nb - 1)
DecompAdds == LET d == Decomp(x.f, x.e) n == Len(x.f)
      bs == RMean([i \in 1..n |-> RSq(RSub(x.f[i], B2R(x.e[i])))], FALSE)
   IN /\ RLe(Zero, d.rel) /\ RLe(Zero, d.res) /\ RLe(Zero, d.unc) /\ RLe(d.unc, <<1, 4>>) /\ RLe(d.res, d.unc)
      /\ RAdd(RSub(d.rel, d.res), d.unc) = bs          \* quarters never share a bin unless equal
TwoSided == (\E i \in 1..Len(x.e) : x.e[i]) /\ (\E i \in 1..Len(x.e) : ~x.e[i])
RocArea == TwoSided => LET pts == RocPoints(x.f, x.e)
   IN /\ AreaUnder(RocChain(pts)) = Auc(x.f, x.e)
      /\ AreaUnder(RocChain(RocCorners(pts))) = Auc(x.f, x.e)
      /\ <<One, One>> \in pts
      /\ Auc(x.f, [i \in 1..Len(x.e) |-> ~x.e[i]]) = RSub(One, Auc(x.f, x.e))
IouBounds == LET fb == [i \in 1..Len(x.f) |-> RLt(<<1, 2>>, x.f[i])] v == Iou(fb, x.e)
   IN /\ v = NaN \/ (RLe(Zero, v) /\ RLe(v, One))
      /\ v = Iou(x.e, fb)
      /\ v = One <=> (fb = x.e /\ \E i \in 1..Len(fb) : fb[i])

(* ---- pairs of integers: C08, C09 ---- *)
InitInts == \E n \in 2..N : \E a \in Sq(0..2, n) : \E b \in Sq(0..2, n) : x = [a |-> a, b |-> b]
CorrProper == CorrDefined(x.a, x.b) => LET c == CorrOf(x.a, x.b)
   IN /\ RLe(c[2], One) /\ c = CorrOf(x.b, x.a)
      /\ c = CorrOf([i \in 1..Len(x.a) |-> 3 * x.a[i] + 5], x.b)
      /\ CorrOf([i \in 1..Len(x.a) |-> -x.a[i]], x.b) = <<-c[1], c[2]>>
      /\ CorrOf(Rev(x.a), Rev(x.b)) = c
SSConserve == \A nb \in 1..Len(x.a) :
   LET var == [i \in 1..Len(x.a) |-> R(x.a[i], 1)] sq == [i \in 1..Len(x.b) |-> R(x.b[i], 1)]
       c == SSCell(var, sq, nb, FALSE) n == Len(x.a)
   IN /\ ISum(c.size) = n /\ \A k \in 1..nb : c.size[k] >= n \div nb /\ c.size[k] <= n \div nb + 1
      /\ \A k \in 1..(nb - 1) : RLe(c.sp[k], c.sp[k + 1]) /\ c.size[k + 1] <= c.size[k]
      /\ RSum([k \in 1..nb |-> RMul(R(c.size[k], n), c.sk[k])]) = c.mse
      /\ RSum([k \in 1..nb |-> RMul(R(c.size[k], n), c.sp[k])]) = RMean(var, FALSE)

(* ---- C02: bootstrap ---- *)
InitBoot == \E q \in SeqsUpTo({0, 1, 3, Miss}, N) : \E ns \in 1..2 : \E rp \in 1..3 : \E c \in {<<1, 2>>, <<9, 10>>} :
              x = [q |-> [i \in 1..Len(q) |-> Val(1, q[i])], ns |-> ns, rp |-> rp, c |-> c]
BootBounds == \A t \in BootTriples(x.q, x.ns, x.rp, x.c, FALSE) :
    \/ t = <<NaN, NaN, NaN>> /\ AnyNaN(x.q)
    \/ LET w == SelectSeq(x.q, IsNum) IN /\ RLe(t[1], t[3]) /\ RLe(RMin(w), t[1]) /\ RLe(t[3], RMax(w))
                                         /\ RLe(RMin(w), t[2]) /\ RLe(t[2], RMax(w))
BootConstant == (~AnyNaN(x.q) /\ RMin(x.q) = RMax(x.q)) => BootTriples(x.q, x.ns, x.rp, x.c, FALSE) = {<<x.q[1], x.q[1], x.q[1]>>}
BootSkip == (~AnyNaN(x.q)) => BootTriples(x.q, x.ns, x.rp, x.c, FALSE) = BootTriples(x.q, x.ns, x.rp, x.c, TRUE)

(* ---- C22 ---- *)
InitDM == \E n \in 2..N : \E a \in Sq(1..2, n) : \E p \in Sq(0..2, n) : \E r \in Sq({0, 2}, n) : \E h \in 1..(n - 1) :
            \E c \in {"MSE", "MAPE"} : x = [a |-> a, p |-> p, r |-> r, h |-> h, c |-> c]
ToR(q) == [i \in 1..Len(q) |-> R(q[i], 1)]
DMSwap == LET d1 == LossDiff(ToR(x.a), ToR(x.p), ToR(x.r), x.c, 2) d2 == LossDiff(ToR(x.a), ToR(x.r), ToR(x.p), x.c, 2)
          IN /\ LongRun(d1, x.h) = LongRun(d2, x.h)
             /\ RLt(Zero, LongRun(d1, x.h)) => LET s1 == DMSigned(d1, x.h) s2 == DMSigned(d2, x.h) IN s1[2] = s2[2] /\ s1[1] = -s2[1]
             /\ RLe(Zero, AutoCov(d1, 0))
HarveyPos == HarveySq(Len(x.a), x.h)[1] >= 0
=============================================================================
