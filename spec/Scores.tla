------------------------------- MODULE Scores -------------------------------
(* What PyAnEn's metrics mean.  Everything is a definition over small n-d arrays of exact rationals;
   the numbers are those a user sees.  No definition follows the way the code computes the value. *)
EXTENDS Nd, TLC

Miss == 99999                                  \* a missing value (NaN) in recorded integer data
Val(u, x) == IF x = Miss THEN NaN ELSE R(x, u)

(* ---------- ensembles: members of every cell ------------------------------------------------ *)
Cells(f, ea) == Groups(f.s, {Ax1(ea, Len(f.s))})
MembersOf(f, ea, u) ==
  LET g == Cells(f, ea) IN TLCEval([k \in 1..Len(g) |-> [j \in 1..Len(g[k]) |-> Val(u, f.v[g[k][j]])]])
DropAxis(s, ea) == KeptShape(s, {Ax1(ea, Len(s))})

AnyNaN(q) == \E i \in 1..Len(q) : ~IsNum(q[i])
SortR(q) == SortSeq(q, RLt)
Median(q) == LET z == SortR(q) n == Len(q)
             IN IF n % 2 = 1 THEN z[(n + 1) \div 2]
                ELSE RMul(RAdd(z[n \div 2], z[n \div 2 + 1]), <<1, 2>>)
Collapse(how, q) ==
  IF AnyNaN(q) THEN NaN
  ELSE CASE how = "mean" -> RMean(q, FALSE)
         [] how = "median" -> Median(q)
         [] how = "max" -> RMax(q)
         [] how = "min" -> RMin(q)
         [] how = "sum" -> RSum(q)
SpreadOf(q, skip) ==
  LET w == IF skip THEN SelectSeq(q, IsNum) ELSE q
  IN IF w = <<>> \/ AnyNaN(w) THEN NaN ELSE RSub(RMax(w), RMin(w))
VarOf(q) == IF AnyNaN(q) THEN NaN
            ELSE LET m == RMean(q, FALSE)
                 IN RMean([i \in 1..Len(q) |-> RSq(RSub(q[i], m))], FALSE)
(* energy form of the CRPS of an ensemble *)
CrpsOf(q, o) ==
  IF ~IsNum(o) \/ AnyNaN(q) THEN NaN
  ELSE LET n == Len(q)
           a == RMean([i \in 1..n |-> RAbs(RSub(q[i], o))], FALSE)
           b == RSum([i \in 1..n |-> RSum([j \in 1..n |-> RAbs(RSub(q[i], q[j]))])])
       IN RSub(a, RMul(b, R(1, 2 * n * n)))

(* ---------- probabilities and events -------------------------------------------------------- *)
ProbBelow(q, t) == R(Cnt(q, LAMBDA x : RLe(x, t)), Len(q))
EventOf(o, t, over) == IF over THEN RLt(t, o) ELSE RLt(o, t)
B2R(b) == IF b THEN One ELSE Zero

(* ---------- aggregation --------------------------------------------------------------------- *)
MeanOver(arr, A, skip) == LET Op(q) == RMean(q, skip) IN Reduce(arr, A, Op)
GroupsOf(s, A) == Groups(s, A)

(* ---------- ranks --------------------------------------------------------------------------- *)
RankLo(q, o) == 1 + Cnt(q, LAMBDA x : RLt(x, o))
Ties(q, o) == Cnt(q, LAMBDA x : x = o)
ReliabilityIndex(h) ==      \* h: counts
  LET n == Len(h) tot == ISum(h)
  IN RSum([i \in 1..n |-> RAbs(RSub(R(h[i], tot), R(1, n)))])

(* ---------- reliability diagram ------------------------------------------------------------- *)
CeilMul(f, n) == LET p == f[1] * n IN IF p % f[2] = 0 THEN p \div f[2] ELSE p \div f[2] + 1
RelBin(f, n) == IF f[1] = 0 THEN 0 ELSE CeilMul(f, n) - 1
RelSlice(f, e, n) ==        \* f: probabilities, e: events of one slice
  LET bin == TLCEval([i \in 1..Len(f) |-> RelBin(f[i], n)])
      occ == TLCEval(SelectSeq([b \in 1..n |-> b - 1], LAMBDA b : \E i \in 1..Len(f) : bin[i] = b))
      idx(b) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : bin[i] = b)
      pos == Cnt(e, LAMBDA x : x)
      neg == Len(e) - pos
  IN [pred |-> [k \in 1..Len(occ) |-> RMean(Pick(f, idx(occ[k])), FALSE)],
      obs |-> [k \in 1..Len(occ) |-> R(Cnt(Pick(e, idx(occ[k])), LAMBDA x : x), Len(idx(occ[k])))],
      cnt |-> [k \in 1..Len(occ) |-> Len(idx(occ[k]))],
      out |-> (IF neg > 0 THEN <<neg>> ELSE <<>>) \o (IF pos > 0 THEN <<pos>> ELSE <<>>)]

(* ---------- Brier decomposition (20 bins) ---------------------------------------------------- *)
BDBin(f) == LET b == (f[1] * 20) \div f[2] IN IF b > 19 THEN 19 ELSE b
DecompIn(f, e, bin) ==       \* bin: the bin of each probability
  LET n == Len(f)
      occ == {bin[i] : i \in 1..n}
      obar == R(Cnt(e, LAMBDA x : x), n)
      idx(b) == SelectSeq([i \in 1..n |-> i], LAMBDA i : bin[i] = b)
      fb(b) == RMean(Pick(f, idx(b)), FALSE)
      ob(b) == R(Cnt(Pick(e, idx(b)), LAMBDA x : x), Len(idx(b)))
      wsum(T(_)) == FoldSet(LAMBDA b, acc : RAdd(acc, RMul(R(Len(idx(b)), n), T(b))), Zero, occ)
  IN [rel |-> wsum(LAMBDA b : RSq(RSub(fb(b), ob(b)))),
      res |-> wsum(LAMBDA b : RSq(RSub(ob(b), obar))),
      unc |-> RMul(obar, RSub(One, obar))]
Decomp(f, e) == DecompIn(f, e, TLCEval([i \in 1..Len(f) |-> BDBin(f[i])]))

(* ---------- ROC ------------------------------------------------------------------------------ *)
RocPoints(f, e) ==          \* full curve, as a set of <<false alarm rate, hit rate>>
  LET n == Len(f) P == Cnt(e, LAMBDA x : x) N == n - P
      pt(th) == <<R(Cardinality({i \in 1..n : ~e[i] /\ RLe(th, f[i])}), N),
                  R(Cardinality({i \in 1..n : e[i] /\ RLe(th, f[i])}), P)>>
  IN {<<Zero, Zero>>} \cup {pt(f[i]) : i \in 1..n}
PtLe(a, b) == RLe(a[1], b[1]) /\ RLe(a[2], b[2])
RocChain(pts) == SetToSortSeq(pts, LAMBDA a, b : PtLe(a, b) /\ a # b)
Collinear(a, b, c) == RMul(RSub(b[1], a[1]), RSub(c[2], b[2])) = RMul(RSub(b[2], a[2]), RSub(c[1], b[1]))
RocCorners(pts) ==
  LET c == TLCEval(RocChain(pts)) n == Len(c)
  IN {c[1], c[n]} \cup {c[i] : i \in {j \in 2..(n - 1) : ~Collinear(c[j - 1], c[j], c[j + 1])}}
Auc(f, e) ==
  LET n == Len(f) P == {i \in 1..n : e[i]} N == {i \in 1..n : ~e[i]}
      w == FoldSet(LAMBDA i, acc : acc + FoldSet(LAMBDA j, a2 : a2 + (IF RLt(f[j], f[i]) THEN 2 ELSE IF f[i] = f[j] THEN 1 ELSE 0), 0, N), 0, P)
  IN R(w, 2 * Cardinality(P) * Cardinality(N))
AreaUnder(c) ==             \* trapezoid area of a chain of points
  RSum([i \in 1..(Len(c) - 1) |-> RMul(RMul(RSub(c[i + 1][1], c[i][1]), RAdd(c[i + 1][2], c[i][2])), <<1, 2>>)])

(* ---------- IOU ------------------------------------------------------------------------------ *)
Iou(fb, ob) ==
  LET n == Len(fb)
      i == Cnt([k \in 1..n |-> fb[k] /\ ob[k]], LAMBDA x : x)
      u == Cnt([k \in 1..n |-> fb[k] \/ ob[k]], LAMBDA x : x)
  IN IF u = 0 THEN NaN ELSE R(i, u)

(* ---------- correlation: on integers, as <<sign, r^2>> --------------------------------------- *)
Cov(x, y) == LET n == Len(x) IN n * ISum([i \in 1..n |-> x[i] * y[i]]) - ISum(x) * ISum(y)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
CorrDefined(x, y) == Len(x) > 1 /\ Cov(x, x) # 0 /\ Cov(y, y) # 0
CorrOf(x, y) == LET c == Cov(x, y) IN <<Sgn(c), RMul(R(c, Cov(x, x)), R(c, Cov(y, y)))>>

(* ---------- spread-skill ---------------------------------------------------------------------- *)
SplitSizes(n, b) == [k \in 1..b |-> n \div b + (IF k <= n % b THEN 1 ELSE 0)]
SplitFrom(n, b) == LET z == SplitSizes(n, b) IN [k \in 1..b |-> 1 + ISum(SubSeq(z, 1, k - 1))]
SSCell(var, sq, b, skip) ==     \* var, sq: sequences of one kept cell
  LET n == Len(var)
      ord == TLCEval(SortSeq([i \in 1..n |-> i], LAMBDA i, j : RLt(var[i], var[j])))
      z == SplitSizes(n, b)
      from == TLCEval(SplitFrom(n, b))
      ids(k) == SubSeq(ord, from[k], from[k] + z[k] - 1)
      clean(k) == k = 1 \/ RLt(var[ord[from[k] - 1]], var[ord[from[k]]])
  IN [sp |-> [k \in 1..b |-> RMean(Pick(var, ids(k)), skip)],
      sk |-> [k \in 1..b |-> RMean(Pick(sq, ids(k)), skip)],
      det |-> \A k \in 1..b : clean(k),
      size |-> z,
      mse |-> RMean(sq, skip)]

(* ---------- Diebold-Mariano: squared statistic ------------------------------------------------- *)
Loss(a, p, crit, pw) ==
  LET e == RSub(a, p)
  IN CASE crit = "MSE" -> RSq(e)
       [] crit = "MAD" -> RAbs(e)
       [] crit = "MAPE" -> RAbs(RDiv(e, a))
       [] crit = "poly" -> (IF pw = 1 THEN e ELSE IF pw = 2 THEN RSq(e) ELSE IF pw = 3 THEN RMul(e, RSq(e)) ELSE RSq(RSq(e)))
LossDiff(a, p1, p2, crit, pw) == TLCEval([i \in 1..Len(a) |-> RSub(Loss(a[i], p1[i], crit, pw), Loss(a[i], p2[i], crit, pw))])
AutoCov(d, k) == LET n == Len(d) m == RMean(d, FALSE)
                 IN RMean([i \in 1..(n - k) |-> RMul(RSub(d[i + k], m), RSub(d[i], m))], FALSE)
LongRun(d, h) == LET n == Len(d)
                     g == TLCEval([k \in 1..h |-> AutoCov(d, k - 1)])
                 IN RMul(RAdd(g[1], RMul(<<2, 1>>, RSum(SubSeq(g, 2, h)))), R(1, n))
HarveySq(n, h) == R(n * (n + 1 - 2 * h) + h * (h - 1), n * n)
DMSigned(d, h) ==              \* <<sign, statistic^2>>; defined when LongRun > 0
  LET m == RMean(d, FALSE)
  IN <<Sgn(m[1]), RMul(HarveySq(Len(d), h), RDiv(RSq(m), LongRun(d, h)))>>

(* the same for whole numbers with a whole mean and any horizon, in fixed point *)
WholeDev(z) == LET m == ISum(z) \div Len(z) IN [i \in 1..Len(z) |-> z[i] - m]
LongRun6(z, h) ==              \* n times the long-run variance, units of 2^-6
  LET n == Len(z) e == TLCEval(WholeDev(z))
      S(k) == ISum([i \in 1..(n - k) |-> e[i + k] * e[i]])
      G(k) == (S(k) * 65536) \div (n - k)
  IN (G(0) + 2 * ISum([k \in 1..(h - 1) |-> G(k)])) \div 1024
DMRhs(z, h) == LET n == Len(z) m == ISum(z) \div n w == m * m * (n * (n + 1 - 2 * h) + h * (h - 1))
               IN (w \div n) * 65536 + ((w % n) * 65536) \div n

(* ---------- forecasts ---------------------------------------------------------------------------- *)
(* A dataset D is a record: D.k kind, D.u unit, D.o observations, and
     "det": D.f ; "ens": D.f with an ensemble axis ;
     "step": distribution concentrated at D.f (half its mass below that value), D.pop (in 4ths, hurdle)
     "point": mean D.f, standard deviation D.sd *)
Thr(D, t, k) == IF t.k = "s" THEN R(t.v, D.u) ELSE IF t.k = "q" THEN t.v ELSE R(t.v[k], D.u)
StepBelow(loc, t) == IF ~IsNum(loc) \/ ~IsNum(t) THEN NaN ELSE IF RLt(loc, t) THEN One ELSE IF loc = t THEN <<1, 2>> ELSE Zero
BelowOf(D, ob, t) ==           \* probability of not exceeding the threshold, every cell
  IF D.k = "ens"
  THEN LET M == MembersOf(D.f, ob.eax, D.u) IN TLCEval([k \in 1..Len(M) |-> ProbBelow(M[k], Thr(D, t, k))])
  ELSE TLCEval([k \in 1..Len(D.f.v) |->
        LET th == Thr(D, t, k)
            st == StepBelow(Val(D.u, D.f.v[k]), th)
        IN IF ob.cls = "hurdle"
           THEN LET p == R(D.pop.v[k], 4)
                IN RAdd(RSub(One, p), IF RLt(Zero, th) THEN RMul(p, st) ELSE Zero)
           ELSE IF ob.trunc THEN (IF IsNum(st) /\ RLe(th, Zero) THEN Zero ELSE st)   \* locations positive
           ELSE st])
EventProb(D, ob, over, t) ==
  LET b == BelowOf(D, ob, t) IN IF over THEN TLCEval([k \in 1..Len(b) |-> RSub(One, b[k])]) ELSE b
Events(D, over, t) == TLCEval([k \in 1..Len(D.o.v) |-> EventOf(Val(D.u, D.o.v[k]), Thr(D, t, k), over)])
(* numerical integration: trapezoid sums over the grid of the forecast's own probabilities *)
Grid(lo, hi, n) == TLCEval([i \in 1..n |-> RAdd(lo, RMul(RSub(hi, lo), R(i - 1, n - 1)))])
DefaultRange(o, mult) ==       \* o: observations as rationals
  LET w == RMul(R(mult, 1), RSub(RMax(o), RMin(o))) IN <<RSub(RMin(o), w), RAdd(RMax(o), w)>>
Half(x) == RMul(x, <<1, 2>>)
IntMean(x, F) == RSum([i \in 1..(Len(x) - 1) |-> Half(RMul(RAdd(x[i], x[i + 1]), RSub(F[i + 1], F[i])))])
IntMoment2(x, F) == RSum([i \in 1..(Len(x) - 1) |-> Half(RMul(RAdd(RSq(x[i]), RSq(x[i + 1])), RSub(F[i + 1], F[i])))])
IntVar(x, F) == RSub(IntMoment2(x, F), RSq(IntMean(x, F)))
IntCrps(x, F, o) ==
  LET h(i) == RSq(RSub(F[i], B2R(RLt(o, x[i]))))
  IN RSum([i \in 1..(Len(x) - 1) |-> Half(RMul(RSub(x[i + 1], x[i]), RAdd(h(i), h(i + 1))))])
Integral(D, ob, kind) ==       \* every cell; ob.ir range, ob.ib number of grid points
  LET x == Grid(ob.ir[1], ob.ir[2], ob.ib)
      G == TLCEval([i \in 1..Len(x) |-> BelowOf(D, ob, [k |-> "q", v |-> x[i]])])
      F(k) == TLCEval([i \in 1..Len(x) |-> G[i][k]])
  IN TLCEval([k \in 1..Len(D.o.v) |->
       CASE kind = "mean" -> IntMean(x, F(k))
         [] kind = "variance" -> IntVar(x, F(k))
         [] kind = "crps" -> IntCrps(x, F(k), Val(D.u, D.o.v[k]))])
PointOf(D, ob) ==              \* point forecast of every cell
  IF D.k = "ens" THEN LET M == MembersOf(D.f, ob.eax, D.u) IN TLCEval([k \in 1..Len(M) |-> Collapse(ob.col, M[k])])
  ELSE IF ob.cls = "hurdle" THEN Integral(D, ob, "mean")
  ELSE TLCEval([k \in 1..Len(D.f.v) |-> Val(D.u, D.f.v[k])])
ObsOf(D) == TLCEval([k \in 1..Len(D.o.v) |-> Val(D.u, D.o.v[k])])
VarianceOf(D, ob) ==
  IF D.k = "ens" THEN LET M == MembersOf(D.f, ob.eax, D.u) IN TLCEval([k \in 1..Len(M) |-> VarOf(M[k])])
  ELSE IF ob.cls = "hurdle" THEN Integral(D, ob, "variance")
  ELSE TLCEval([k \in 1..Len(D.sd.v) |-> RSq(Val(D.u, D.sd.v[k]))])

CellScore(D, ob, m, over, t, skip) ==
  LET n == Len(D.o.v)
      o == ObsOf(D)
      p == PointOf(D, ob)
      M == MembersOf(D.f, ob.eax, D.u)
      pr == EventProb(D, ob, over, t)
      ev == Events(D, over, t)
  IN TLCEval(
     CASE m = "error" -> [k \in 1..n |-> RSub(p[k], o[k])]
       [] m = "ab_error" -> [k \in 1..n |-> LET d == RSub(p[k], o[k]) IN IF IsNum(d) THEN RAbs(d) ELSE NaN]
       [] m \in {"sq_error", "rmse"} -> [k \in 1..n |-> RSq(RSub(p[k], o[k]))]
       [] m = "spread" -> [k \in 1..n |-> SpreadOf(M[k], skip)]
       [] m = "crps" /\ ob.cls = "hurdle" -> Integral(D, ob, "crps")
       [] m = "crps" -> [k \in 1..n |-> CrpsOf(M[k], o[k])]
       [] m = "brier" -> [k \in 1..n |-> RSq(RSub(pr[k], B2R(ev[k])))])
=============================================================================
